"""Checks around existing C++ archives: P05 (opening), P09 (building)."""
import os
import random

from . import cppcheck as cc
from . import diskmodel as dm
from .common import Result, Violation
from .cppcheck import CppCheck, parse_log, rule_cmds, values_for
from .cppdrv import crash_text, parse_dump
from .cppmodel import Model
from .py_write import EACCES, EIO, EMFILE
from .simlib import A_ERRNO, KLASS

ENOMEM, ENFILE, ELOOP = 12, 23, 40
RERRS = {"stat": [EIO, EACCES, ENOMEM, ELOOP], "open": [EMFILE, EACCES, EIO, ENFILE], "mmap": [ENOMEM, EIO, EACCES], "read": [EIO], "opendir": [EMFILE]}


def compare(schema, arch, exp, got, faulted, files_hit, what):
    """exp, got: (R, A).  faulted: I/O errors may have hidden resources"""
    ER, EA = exp
    R, A = got
    if not faulted:
        for p in sorted(set(ER) | set(R)):
            if ER.get(p) != R.get(p):
                raise Violation("wrong-content: %s%s shows %s, stored is %s" % (what, p, str(R.get(p))[:120], str(ER.get(p))[:120]))
        for p in sorted(set(EA) | set(A)):
            if EA.get(p) != A.get(p):
                raise Violation("wrong-state: %sarchive %s is %s, expected %s" % (what, p or ".", A.get(p), EA.get(p)))
        return
    for p, t in R.items():
        if t not in ("invalid", "absent") and ER.get(p) != t:
            raise Violation("wrong-content: %s%s shows %s, stored is %s" % (what, p, t[:120], str(ER.get(p))[:120]))
        if "/" not in p and p in ER and ER[p] != t and not any(relates(p, f) for f in files_hit):
            raise Violation("lost-resource: %s%s shows %s although no error hit its files, stored is %s" % (what, p, t[:120], ER[p][:120]))

    def walk(a, pre):
        if A.get(pre) == "open":
            if EA.get(pre) != "open":
                raise Violation("wrong-state: %sarchive %s is open, expected %s" % (what, pre or ".", EA.get(pre)))
            m = dm.mandatory_missing(schema, a, R, A, pre)
            if m:
                raise Violation("open-incomplete: %sarchive %s is open without %s" % (what, pre or ".", m))
        for r in a.resources:
            if r.kind == "archive":
                walk(schema.archive(r.types[0]), pre + r.name + "/")
    walk(arch, "")


def relates(res, f):
    """does the file (path below the scratch directory) belong to the top-level resource"""
    parts = f.split("/")
    if len(parts) < 2 or not parts[1]:
        return True            # the archive directory itself
    return parts[1] in (res, res + ".schema", res + "_index", res + "_index.schema")


class P05(CppCheck):
    prop = "P05"
    level = "exploration"
    reducible = ("damage", "rules")
    rule = ("one run = one stored archive (seeded schema, values and absent optional resources) with up to five seeded damages (deleted, truncated, extended, "
            "flipped, swapped, emptied, consistently resized files, altered schema texts, directories in place of files) opened by the real C++ reader, with I/O errors at "
            "chosen stat, open and mmap calls; then opened again without errors; non-trivial = at least one damage or fault")
    measure = "distinct (schema, damages by kind and file, faulted operations, opened archive's state)"

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p05/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = self.names[0] if rng.random() < 0.4 else rng.choice(self.names)
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            scale = rng.choice([None, None, 0, 1, 3])
            base = dict(schema=name, ai=ai, values=seed, scale=scale, damage=[], rules=[])
            vals = self.vals(base)
            files = dm.archive_files(schema, arch, vals)
            yield base
            # every single file: removed, emptied, cut, header changed, schema changed
            single = []
            for f in sorted(files):
                n = len(files[f])
                single += [["del", f], ["trunc", f, 0], ["trunc", f, n - 1], ["ext", f, 1], ["flip", f, rng.randint(0, min(7, n - 1)), 1 << rng.randint(0, 7)], ["mkdir", f]]
                if f.endswith(".schema"):
                    single += [["flip", f, rng.randint(0, n - 1), 1], ["app", f, rng.choice(["\n", " ", "\0"])], ["cut", f, rng.randint(0, n - 1)]]
            rng.shuffle(single)
            for d in single[:40]:
                yield dict(base, damage=[d])
                if stop():
                    return
            for k in range(60):
                yield dict(base, damage=[dm.rand_damage(rng, schema, arch, vals, files) for _ in range(rng.choice([1, 1, 2, 3, 5]))])
                if stop():
                    return
            ops = self.profile5(base)
            plans = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, c]] for e in ops for er in RERRS.get(e[2], []) for c in (1, 0)]
            rng.shuffle(plans)
            for k, rules in enumerate(plans[:70]):
                dmg = [dm.rand_damage(rng, schema, arch, vals, files) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
                if rng.random() < 0.3:
                    rules = rules + rng.choice(plans)
                yield dict(base, damage=dmg, rules=rules)
                if stop():
                    return

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return values_for(schema, schema.archives[sc["ai"]], sc["values"], random.Random(sc["values"] + "/opt"), scale=sc["scale"])

    def tree(self, sc):
        schema = self.schemas[sc["schema"]]
        files = dm.archive_files(schema, schema.archives[sc["ai"]], self.vals(sc))
        dirs = dm.dirs_of(files)
        for d in sc["damage"]:
            dm.apply_damage(files, dirs, d)
        return files, dirs

    def setup_disk(self, sc, root):
        self.files, self.dirs = self.tree(sc)
        dm.write_tree(os.path.join(root, "d", "a"), self.files, self.dirs)

    def commands(self, sc):
        s, ai = sc["schema"], sc["ai"]
        return (["B @/d"] + rule_cmds(sc["rules"]) + ["S 0 fo @/d/a", "o 1 %s %d 0" % (s, ai), "ds 1", "d 1", "L", "X",
                "o 2 %s %d 0" % (s, ai), "d 2", "ds 2", "S 3 fo @/d/a", "o 3 %s %d 3" % (s, ai), "d 3", "ds 3", "d 1", "L"])

    def profile5(self, sc):
        root, cmds, resp, st, out = self.raw_run(sc)
        for c, r in zip(cmds, resp):
            if c == "L":
                return parse_log(r.split(" ", 1)[1])[2]
        return []

    def judge(self, sc, root, cmds, resp, st, out):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        try:
            exp = dm.cpp_expect(schema, arch, dm.Disk(self.files, self.dirs))
        except dm.Undecodable:
            return Result(key="trivial-undecodable", nontrivial=False)
        if st:
            return Result(violation=crash_text(st, resp, cmds, self.driver().stderr()), key="crash", nontrivial=True,
                          trace=["%s => %s" % (c, r[:200]) for c, r in zip(cmds, resp) if c != "L"])
        first = next(k for k, c in enumerate(cmds) if c == "L")
        ops, kinds, entries = parse_log(resp[first].split(" ", 1)[1])
        hit = [e[3] for e in entries if e[6]]
        trace = ["%s => %s" % (c[:200], r[:300]) for c, r in zip(cmds, resp) if not c.startswith(("R ", "L"))]
        trace += ["%d %s %s -> %s" % (e[0], e[2], e[3], e[6]) for e in entries if e[6]]
        stats = {"ops": ops, "faults": dict(kinds), "seeds": 1, "damages": len(sc["damage"])}
        for d in sc["damage"]:
            stats["faults"]["damage_" + d[0]] = stats["faults"].get("damage_" + d[0], 0) + 1
        nontriv = bool(hit or sc["damage"])
        try:
            self.check(sc, schema, arch, exp, cmds, resp, hit, root)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=nontriv, trace=trace, stats=stats)
        key = "|".join([sc["schema"], ",".join(sorted("%s:%s" % (d[0], d[1]) for d in sc["damage"])),
                        ",".join(sorted("%s:%s" % (e[2], e[3].split("/")[-1]) for e in entries if e[6]))[:200],
                        "".join(t[0] for t in exp[1].values())]) if nontriv else "trivial"
        return Result(key=key, nontrivial=nontriv, trace=trace, stats=stats)

    def check(self, sc, schema, arch, exp, cmds, resp, hit, root):
        ans = [r.split(" ", 1)[1] for r in resp]
        dumps = []
        s0 = next(k for k, c in enumerate(cmds) if c.startswith("S 0 "))
        for k, c in enumerate(cmds):
            t = c.split(" ")
            if t[0] == "S" and ans[k] != "ok" and not (k < cmds.index("X") and hit):
                raise Violation("spurious-failure: the storage could not be opened although nothing failed")
            if t[0] == "o":
                if ans[k] not in ("open", "closed"):
                    raise Violation("raised: opening answered %s" % ans[k][:120])
            if t[0] == "d":
                R, A = parse_dump(ans[k])
                dumps.append(ans[k])
                faulted = bool(hit) and (t[1] == "1" or (t[1] == "2" and ans[s0] != "ok"))
                what = "" if t[1] == "1" else "opened again, "
                compare(schema, arch, exp, (R, A), faulted, hit, what)
                o = ans[next(j for j in range(len(cmds)) if cmds[j].startswith("o %s " % t[1]))]
                if (A.get("") == "open") != (o == "open"):
                    raise Violation("wrong-state: is_open and operator bool disagree")
            if t[0] == "ds":
                if not ans[k].startswith("text "):
                    raise Violation("raised: describe answered %s" % ans[k][:120])
                o = ans[next(j for j in range(len(cmds)) if cmds[j].startswith("o %s " % t[1]))]
                if (o == "open") == ("FATAL" in ans[k]):
                    raise Violation("wrong-description: an archive that is %s is described as %s" % (o, "fine" if o != "open" else "failed"))
        if dumps[0] != dumps[-1]:
            raise Violation("changed-content: the archive shows other content after others were opened")
        # reading does not change anything on disk
        from . import pylib
        if pylib.read_dir(os.path.join(root, "d", "a")) != self.files:
            raise Violation("modified: opening changed the files")


class P09(CppCheck):
    """a second builder on something that exists"""
    prop = "P09"
    level = "exploration"
    reducible = ("damage", "cmds", "rules")
    rule = ("one run = an archive (complete, partial, or with damaged signature files; on disk or in memory), then a seeded sequence of calls on one or two further builders of "
            "it (set and start of every resource, sub-archive builders, streaming into new sub-archives), with I/O errors at chosen operations; "
            "non-trivial = at least one write was attempted on an existing archive")
    measure = "distinct (schema, storage, missing parts, attempted calls with answers, faulted operations)"

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p09/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            subs = [n for n in self.names if len(self.schemas[n].archives) > 1]
            name = self.names[0] if rng.random() < 0.4 else rng.choice(subs if subs and rng.random() < 0.6 else self.names)
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            mem = rng.random() < 0.25
            base = dict(schema=name, ai=ai, values=seed, drop=rng.choice([0, 0.2, 0.5, 1]), damage=[], rules=[], cap=-1)
            vals = self.vals(base)
            ids = cc.Ids()
            new = values_for(schema, arch, seed + "/new", rng, p_opt=1.0)
            tasks = []
            for b in range(rng.choice([1, 1, 2])):
                bid = ids()
                cmds = ["b %d %s %d 0" % (bid, name, ai)]
                calls = []
                for _ in range(rng.choice([1, 1, 2])):
                    calls += cc.archive_tasks(rng, schema, arch, new, bid, ids, p_stream=0.5, edits=0)
                rng.shuffle(calls)
                cmds += cc.interleave(rng, calls[:rng.randint(1, max(1, len(calls)))], 0.3)
                tasks.append(cmds)
            cmds = cc.interleave(rng, tasks, rng.choice([0, 0.3]))
            if mem:
                mids = cc.Ids()
                mids.n = 500
                pre = ["b 1 %s %d 0" % (name, ai)] + cc.interleave(rng, cc.archive_tasks(rng, schema, arch, vals, 1, mids, edits=0), 0.2) + ["bd 1"]
                yield dict(base, mem=pre, cmds=cmds)
                if stop():
                    return
                continue
            base["cmds"] = cmds
            yield base
            files = dm.archive_files(schema, arch, vals)
            sigs = [f for f in sorted(files) if f.endswith(".archive") or f.endswith(".archive.schema")]
            for k in range(8):
                f = rng.choice(sigs) if sigs else rng.choice(sorted(files))
                n = len(files[f])
                d = rng.choice([["del", f], ["trunc", f, rng.choice([0, n - 1, 8])], ["flip", f, rng.randint(0, n - 1), 1], ["app", f, "\n"], ["mkdir", f]])
                yield dict(base, damage=[d])
                if stop():
                    return
            ops = self.profile(base)
            plans = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, c]] for e in ops for er in dict(cc.ERRS, **RERRS).get(e[2], []) for c in (1, 0)]
            # the checks that look for the existing archive matter most
            plans.sort(key=lambda p: (rng.random() if any(p[0][0] == e[0] and "archive" in e[3] for e in ops) else 1 + rng.random()))
            for rules in plans[:60]:
                if rng.random() < 0.2:
                    rules = rules + rng.choice(plans)
                yield dict(base, rules=rules)
                if stop():
                    return
            for er in (EIO, EACCES, EMFILE):
                yield dict(base, rules=[[-1, KLASS["stat"], "", rng.randint(0, 12), A_ERRNO, 0, er, rng.choice([0, 1, 2, 3])]])
                if stop():
                    return

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        rng = random.Random(sc["values"] + "/opt")
        v = values_for(schema, schema.archives[sc["ai"]], sc["values"], rng)

        def prune(v, depth):
            for k in list(v):
                if isinstance(v[k], dict):
                    if rng.random() < sc["drop"]:
                        del v[k]
                    else:
                        prune(v[k], depth + 1)
                elif rng.random() < sc["drop"] * 0.3:
                    del v[k]
        prune(v, 0)
        return v

    def setup_disk(self, sc, root):
        if sc.get("mem"):
            return
        schema = self.schemas[sc["schema"]]
        files = dm.archive_files(schema, schema.archives[sc["ai"]], self.vals(sc))
        dirs = dm.dirs_of(files)
        for d in sc["damage"]:
            dm.apply_damage(files, dirs, d)
        self.files, self.dirs = files, dirs
        dm.write_tree(os.path.join(root, "d", "a"), files, dirs)

    def commands(self, sc):
        s, ai = sc["schema"], sc["ai"]
        st = "S 0 mem" if sc.get("mem") else "S 0 fc @/d/a"
        o = ["B @/d", st] + sc.get("mem", []) + rule_cmds(sc["rules"]) + sc["cmds"] + ["L", "X"]
        return o + (["S 90 fo @/d/a"] if not sc.get("mem") else []) + ["o 90 %s %d %d" % (s, ai, 0 if sc.get("mem") else 90), "d 90", "ds 90"]

    def make_model(self, sc, root):
        m = Model(self.schemas)
        m.rejections = 0
        if sc.get("mem"):
            return m
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        base = "F:" + root + "/d/a/"
        if not sc["damage"]:
            m.initial(schema, arch, base, self.vals(sc))
            return m
        # damaged: only what the bytes still say
        disk = dm.Disk(self.files, self.dirs)

        def walk(a, prefix):
            m.arch_of_dir[base + prefix] = (schema, a)
            sig = prefix + a.name + ".archive"
            if sig in self.files or sig in self.dirs:
                ok = disk.payload(sig, dm.pylib.cls(schema, a.name).schema()) is not None
                m.sig[(base + prefix, a.name)] = "yes" if ok else "broken"
            for r in a.resources:
                if r.kind == "archive":
                    if prefix + r.name in self.dirs:
                        walk(schema.archive(r.types[0]), prefix + r.name + "/")
                else:
                    v = dm.resource_value(schema, a, r, disk, prefix)
                    if v is not None:
                        m.attempt(base + prefix, r.name, v, True)
        walk(arch, "")
        return m

    def final(self, sc, root, m, cmds, resp):
        ans = [r.split(" ", 1)[1] for r in resp]
        self.sig = ",".join("%s%s:%s" % (c.split(" ")[0], c.split(" ")[2] if " " in c else "", a.split(" ")[0])
                            for c, a in zip(cmds, ans) if c.split(" ")[0] in ("b", "bs", "set", "st"))
        if sc.get("mem"):
            return
        got = dm.pylib.read_dir(os.path.join(root, "d", "a"))
        # directories in which the archive itself does not exist may be written
        free = set()
        schema = self.schemas[sc["schema"]]

        def walk(a, prefix):
            sig = prefix + a.name + ".archive"
            if sig not in self.files and sig not in self.dirs:
                free.add(prefix)
            for r in a.resources:
                if r.kind == "archive":
                    walk(schema.archive(r.types[0]), prefix + r.name + "/")
        walk(schema.archives[sc["ai"]], "")
        for f, b in self.files.items():
            if self.dir(f) in free:
                continue
            if got.get(f) != b:
                raise Violation("existing-modified: %s of the existing archive %s" % (f, "is gone" if f not in got else "was changed"))
        for f in got:
            if f not in self.files and self.dir(f) not in free:
                raise Violation("existing-modified: %s was added to the existing archive" % f)
        self.check_disk(root, m, stray=False, known=set("a/" + f for f in self.files))

    @staticmethod
    def dir(f):
        return f.rsplit("/", 1)[0] + "/" if "/" in f else ""

    def judge(self, sc, root, cmds, resp, st, out):
        try:
            r = super().judge(sc, root, cmds, resp, st, out)
        except dm.Undecodable:
            return Result(key="trivial-undecodable", nontrivial=False)
        if not r.violation:
            n = sum(1 for x in resp if "exc Attempting" in x)
            r.nontrivial = n > 0
            r.stats["rejected"] = n
            if sc["damage"]:
                for d in sc["damage"]:
                    r.stats["faults"] = dict(r.stats["faults"], **{"damage_" + d[0]: 1})
            r.key = ("" if n else "trivial ") + "|".join([sc["schema"], "mem" if sc.get("mem") else "file", str(sc["damage"]), self.sig, r.key or ""])[:600]
        return r
