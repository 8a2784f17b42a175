"""P26: the storages of the Rust library: in-memory and TAR storages behave like directories."""
import gc
import hashlib
import os
import random
import shutil

from . import cppcheck as cc, cppstore, diskmodel as dm
from .common import Result, Violation
from .cppcheck import parse_log, rule_cmds
from .cppdrv import crash_text, parse_dump
from .rustcheck import RustMixin
from .rustread import ShortInstance, expect, with_sentinels
from .tarcheck import P10


class P26(RustMixin, P10):
    prop = "P26"
    preload = False
    wide = False
    always_nontrivial = True
    rule = ("one run = either one seeded sequence of storage, builder, stream and reader operations executed by the real Rust library on a file storage and on an in-memory storage, every answer "
            "compared and judged by the reference model, or one stored archive packed by our own TAR writer (member order, directories, './', GNU long names, POSIX prefixes, base-256 sizes, end blocks, "
            "unrelated members, outdated versions), with seeded damage or I/O errors, opened by the real Rust TAR storage and compared with the same archive in a directory; every run counts as non-trivial")
    measure = "distinct (schema, packing options, kinds of damage, faulted operations, outcome) and sequences of (operation, object)"

    def scenarios(self, worker, nworkers, stop):
        tars = P10.scenarios(self, worker, nworkers, stop)
        mems = self.sequences(worker, nworkers, stop)
        rng = random.Random("%d/p26/%d" % (self.seed, worker))
        while not stop():
            if rng.random() < 0.3:
                yield next(mems)
                continue
            sc = next(tars, None)
            if sc is None:
                return
            if sc.get("lang") in (None, "cpp"):
                yield sc

    def sequences(self, worker, nworkers, stop):
        for sc in cppstore.P19.scenarios(self, worker, nworkers, lambda: False):
            schema = self.schemas[sc["schema"]]
            dirs = {"dir", "x", "sub.d", "dir2", "d_i_r"} | {r.name for a in schema.archives for r in a.resources if r.kind == "archive"}
            out = []
            for c in sc["cmds"]:
                t = c.split(" ")
                # a directory is no resource: what these answer for one is not specified
                if t[0] in ("ex", "rs", "rd") and (t[2] in dirs or t[2].split("/")[0] in dirs and "/" not in t[2]):
                    continue
                out.append(c)
            # a storage object keeps what it once read: nothing is written again after it was read
            sets = {}
            for c in list(out):
                t = c.split(" ")
                if t[0] == "set":
                    k = (t[1], t[2])
                    if k in sets:
                        out.remove(sets[k])
                        j = next(j for j, x in enumerate(out) if x is c)
                        out.insert(j, sets[k])
                    sets[k] = c
            yield dict(sc, cmds=self.with_streams(random.Random(repr(out)), out), mem=True)

    def with_streams(self, rng, cmds):
        """output streams of the storage itself, written and positioned freely"""
        parts = [cmds]
        n = rng.choice([0, 0, 1, 2])
        at = []
        for k in range(n):
            ops, end = ["yo y%d 0 own.s%d" % (k, k)], 0
            for _ in range(rng.randint(1, 9)):
                x = rng.random()
                if x < 0.55:
                    ops.append("%s y%d %s" % (rng.choice(["yw", "ya"]), k, rng.choice(["x7f", "x01", "x010203", "z5", "z40", "z3000"])))
                elif x < 0.95:
                    w = rng.choice("sce")
                    ops.append("yk y%d %s %d" % (k, w, rng.choice([0, 0, 1, 3, 8, 50, 4096, 70000]) if w == "s" else rng.choice([0, 0, 1, 5, 100, -1, -2, -8, -5000])))
                else:
                    ops.append("yf y%d" % k)
            ops += ["yc y%d" % k, "ex 0 own.s%d" % k, "yr 0 own.s%d" % k]
            parts.append(ops)
            if rng.random() < 0.2:
                at.append("yr 0 own.none%d" % k)
        # the commands keep their order in each part; the archive is created first
        out, idx = list(cmds[:1]), [1] + [0] * n
        while True:
            live = [j for j, p in enumerate(parts) if idx[j] < len(p)]
            if not live:
                return out + at
            j = rng.choices(live, [max(1, len(parts[j]) - idx[j]) for j in live])[0]
            out.append(parts[j][idx[j]])
            idx[j] += 1

    sequence = cppstore.P19.sequence

    def tasks(self, rng, schema, arch, vals, b, ids):
        ts = cc.archive_tasks(rng, schema, arch, vals, b, ids)
        for t in ts:
            w = t[0].split(" ")
            if w[0] == "set" and rng.random() < 0.3:
                # written before, with another length
                r = arch.resources[int(w[2])]
                row = "" if r.kind == "raw_data" else ",".join(["1"] * len(schema.struct(r.types[0]).fields))
                x = rng.choice(["x", "x0102", "z77", "z3"]) if r.kind == "raw_data" else row if r.kind == "instance" else ";".join([row] * rng.choice([1, 2, 7]))
                t.insert(0, "set %s %s %s" % (w[1], w[2], x))
        return ts

    def final(self, sc, root, m, cmds, resp):
        self.check_disk(root, m, stray=False)

    def judge(self, sc, root, cmds, resp, st, out):
        return cc.CppCheck.judge(self, sc, root, cmds, resp, st, out)

    def execute(self, sc):
        if sc.get("mem"):
            return cppstore.P19.execute(self, sc)
        return P10.execute(self, sc)

    def shrinks(self, sc):
        if not sc.get("mem"):
            yield from P10.shrinks(self, sc)

    # ------------------------------------------------------------ TAR
    def damages(self, rng, tar, lay):
        # K and x say something about the following member, which then is what the TAR file says it is
        return [d for d in P10.damages(self, rng, tar, lay) if d[0] != "type" or d[2] not in "Kx"]

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return with_sentinels(schema, schema.archives[sc["ai"]], P10.vals(self, sc))

    def profile10(self, sc, lang):
        return P10.profile10(self, sc, lang) if lang == "cpp" else []

    def cpp_cmds(self, sc):
        s, ai = sc["schema"], sc["ai"]
        rules = rule_cmds(sc["rules"]) if sc.get("lang") == "cpp" else []
        cmds = ["B @/d"] + rules + ["S 10 tar @/d/a.tar", "SD 1 10 %s o" % sc["sub"], "o 1 %s %d 1" % (s, ai), "d 1", "ds 1", "L", "X", "S 12 tar @/d/a.tar",
                                    "SD 2 12 %s o" % sc["sub"], "o 2 %s %d 2" % (s, ai), "d 2", "ds 2", "S 3 fo @/dir", "o 3 %s %d 3" % (s, ai), "d 3", "ds 3", "b 9 %s %d 2" % (s, ai), "L"]
        if not sc["sub"]:
            cmds = [c for c in cmds if not c.startswith("SD ")]
            cmds = [c.replace("S 10 ", "S 1 ").replace("S 12 ", "S 2 ") for c in cmds]
        return cmds

    def run(self, sc, root, files, weak, tar):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        stats = {"ops": 0, "faults": {}, "seeds": 1, "packed_bytes": len(tar)}
        for d in sc["damage"]:
            stats["faults"]["damage_" + d[0]] = stats["faults"].get("damage_" + d[0], 0) + 1
        trace, outcome = [], []
        try:
            try:
                exp = expect(schema, arch, dm.Disk(files), lenient=weak)
            except ShortInstance:
                return Result(key="trivial-short", nontrivial=False)
            self.run_rust(sc, schema, arch, root, exp, weak, stats, trace, outcome)
        except dm.Undecodable:
            return Result(key="trivial-undecodable", nontrivial=False)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=True, trace=trace, stats=stats)
        p = {k: v for k, v in sc["pack"].items() if k != "seed"}
        key = hashlib.sha256(repr((sc["schema"], sorted(p.items()), bool(sc["sub"]), sorted(d[0] for d in sc["damage"]), sorted(stats["faults"]), outcome)).encode()).hexdigest()[:16]
        return Result(key=key, nontrivial=True, trace=trace, stats=stats)

    def run_rust(self, sc, schema, arch, root, exp, weak, stats, trace, outcome):
        cmds = [c.replace("@", root) for c in self.cpp_cmds(sc)]
        resp, st, out = self.driver().run(cmds)
        trace += ["%s => %s" % (c[:200], r[:200]) for c, r in zip(cmds, resp) if not c.startswith("L")]
        if st:
            raise Violation(crash_text(st, resp, cmds, self.driver().stderr()))
        ans = [r.split(" ", 1)[1] for r in resp]
        ops, kinds, entries = parse_log(ans[cmds.index("L")])
        stats["ops"] += ops
        for k, v in kinds.items():
            stats["faults"][k] = stats["faults"].get(k, 0) + v
        hit = [e[3] for e in entries if e[6]]
        got = {}
        for c, a in zip(cmds, ans):
            t = c.split(" ")
            if a.startswith("panic"):
                raise Violation("panic: %s answered by %s" % (t[0], a[:300]))
            if t[0] in ("S", "SD", "o", "d", "ds", "b"):
                got[("S" if t[0] == "SD" else t[0]) + t[1]] = a
        for k, what in (("2", ""), ("1", "with errors, ")):
            faulted = bool(hit) and k == "1"
            st = got[{"1": "S10", "2": "S12"}[k]] if sc["sub"] else got["S" + k]
            if st != "ok":
                if not weak and not faulted:
                    raise Violation("spurious-failure: %sthe Rust storage does not open an intact TAR file: %s" % (what, st))
                outcome.append("null")
                continue
            if got["o" + k] != "open":
                outcome.append(got["o" + k][:20])
                if not weak and not faulted and not isinstance(exp, str):
                    raise Violation("closed-complete: %sthe archive in an intact TAR file is complete but opening it answers %s" % (what, got["o" + k][:120]))
                continue
            outcome.append("open")
            if isinstance(exp, str):
                raise Violation("open-damaged: %san archive with missing or damaged parts was opened from a TAR file" % what)
            R, A = parse_dump(got["d" + k])
            for p in sorted(set(R) | set(exp[0])):
                if R.get(p) != exp[0].get(p) and not (weak and lost(schema, arch, p, R)):
                    raise Violation("wrong-content: %sTAR file: %s shows %s, stored is %s" % (what, p, str(R.get(p))[:120], str(exp[0].get(p))[:120]))
            if not weak and A != exp[1]:
                raise Violation("wrong-state: %sTAR file: archives %s, expected %s" % (what, A, exp[1]))
        if not weak and got["o2"] == "open" and got["ds2"] != got["ds3"]:
            raise Violation("wrong-description: the archive in the TAR file is described differently from the one in the directory")
        if got.get("b9") == "open":
            raise Violation("wrong-answer: a builder on a TAR file reports to be open")


def lost(schema, arch, p, R):
    """may the resource at this path be missing because optional parts were lost"""
    a, pre = arch, ""
    parts = p.split("/")
    for i, n in enumerate(parts):
        r = a.res(n)
        if r.optional and R.get(pre + n) == "absent":
            return True
        if r.kind != "archive" or i + 1 == len(parts):
            return False
        a, pre = schema.archive(r.types[0]), pre + n + "/"
    return False
