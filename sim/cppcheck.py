"""Checks that run scenarios of driver commands: P01, P02, P05, P09, P11, P16, P17, P19 (C++ side)."""
import os
import random
import shutil

from . import common, cppdrv, pylib
from .common import Check, Result, Violation
from .cppdrv import Driver, row_text, u64, value_text
from .cppmodel import Model
from .model import rand_field, rand_row
from .simlib import A_CRASH, A_ERRNO, A_SHORT, A_TORN, KLASS
from .py_write import EACCES, EINTR, EIO, EMFILE, ENOSPC, ERRS

HARD = ("errno", "torn_write_error", "disk_full")


# ---------------------------------------------------------------- workloads
def values_for(schema, arch, seed, rng, p_opt=0.8, scale=None):
    """values for an archive and its sub-archives; optional ones are left out sometimes"""
    vals = pylib.values(schema, arch, seed, scale)
    for r in arch.resources:
        if r.kind == "archive":
            vals[r.name] = values_for(schema, schema.archive(r.types[0]), seed + "/" + r.name, rng, p_opt, scale)
        if r.optional and rng.random() > p_opt:
            vals.pop(r.name, None)
    return vals


def stream_cmds(rng, schema, r, v, sid, bid, ri, edits):
    o = ["st %d %d %d" % (sid, bid, ri)]
    if r.kind == "vector":
        st = schema.struct(r.types[0])
        for row in v:
            if rng.random() < edits:
                o.append("g0 %d" % sid)
                o += edit_cmds(rng, st, row, sid)
            else:
                o.append("g %d %s" % (sid, row_text(row)))
    else:
        for bucket in v:
            o.append("mg %d" % sid)
            for ti, row in bucket:
                st = schema.struct(r.types[ti])
                if rng.random() < edits:
                    o.append("ma0 %d %d" % (sid, ti))
                    o += edit_cmds(rng, st, row, sid)
                else:
                    o.append("ma %d %d %s" % (sid, ti, row_text(row)))
    if rng.random() < 0.3 and edits:
        o.append("sz %d" % sid)
    o.append("c %d" % sid)
    return o


def edit_cmds(rng, st, row, sid):
    """assign every field, in some order, some of them several times"""
    o = []
    idx = list(range(len(st.fields)))
    rng.shuffle(idx)
    for i in idx:
        if rng.random() < 0.3:
            o.append("f %d %d %d %d" % (sid, i, u64(rand_field(rng, st.fields[i])), rng.randint(0, 1)))
    if rng.random() < 0.5:
        o.append("fr %d" % sid)
    rng.shuffle(idx)
    for i in idx:
        o.append("f %d %d %d %d" % (sid, i, u64(row[i]), rng.randint(0, 1)))
        if rng.random() < 0.15:
            o.append("fr %d" % sid)
    return o


class Ids:
    def __init__(self):
        self.n = 10

    def __call__(self):
        self.n += 1
        return self.n


def archive_tasks(rng, schema, arch, vals, bid, ids, p_stream=0.5, edits=0.2):
    """list of independent command sequences that write the archive"""
    tasks = []
    for i, r in enumerate(arch.resources):
        if r.name not in vals:
            continue
        v = vals[r.name]
        if r.kind == "archive":
            b = ids()
            sub = interleave(rng, archive_tasks(rng, schema, schema.archive(r.types[0]), v, b, ids, p_stream, edits), 0.5)
            tasks.append(["bs %d %d %d" % (b, bid, i)] + sub)
        elif r.kind == "multivector" or (r.kind == "vector" and rng.random() < p_stream):
            tasks.append(stream_cmds(rng, schema, r, v, ids(), bid, i, edits))
        else:
            tasks.append(["set %d %d %s" % (bid, i, value_text(r, v))])
    return tasks


def interleave(rng, tasks, mix):
    """merge the sequences; mix: probability to switch between them"""
    tasks = [list(t) for t in tasks if t]
    rng.shuffle(tasks)
    out, cur = [], None
    while tasks:
        if cur is None or cur not in tasks or rng.random() < mix:
            cur = rng.choice(tasks)
        out.append(cur.pop(0))
        if not cur:
            tasks = [t for t in tasks if t]
            cur = None
    return out


def rule_cmds(rules, cap=-1):
    o = ["R %d %d %s %d %d %d %d %d" % (i, k, s or "-", sk, a, arg, err, n) for i, k, s, sk, a, arg, err, n in rules]
    if cap >= 0:
        o.append("C %d" % cap)
    return o


def parse_log(line):
    """answer to L -> (ops, kinds, entries)"""
    head, _, body = line.partition(" |")
    t = head.split(" ")
    names = ("errno", "short_write", "crash", "torn_write_error", "disk_full", "interrupted_call")
    kinds = {n: int(x) for n, x in zip(names, t[2:]) if int(x)}
    out = []
    for e in body.split("|"):
        f = e.split(" ", 6)
        if len(f) >= 6:
            out.append((int(f[0]), int(f[1]), f[2], f[3], int(f[4]), int(f[5]), f[6][1:] if len(f) > 6 else ""))
    return int(t[1]), kinds, out


# ---------------------------------------------------------------- base
class CppCheck(Check):
    isolate = False
    reducible = ("cmds", "rules")
    defines = []
    real = ("flatdata-cpp: ArchiveBuilder, Archive, ResourceStorage, ExternalVector, MultiVector, FileResourceStorage, MemoryResourceStorage, "
            "memory mapping, Reader/Writer (current tree, compiled with AddressSanitizer and libstdc++ assertions)",
            "flatdata-generator: C++ code of every schema used, generated from the current tree", "libstdc++ iostreams, boost.filesystem, boost.interprocess")
    stub = ("kernel file system calls below the scratch directory (interposed in the driver binary; real tmpfs behind them)",)
    nrandom = {"quick": 7, "thorough": 23}

    def schema_ids(self):
        return ["fixed"] + [["rnd", self.seed * 1000 + i, 0] for i in range(self.nrandom[self.tier])]

    def prepare(self):
        from multiprocessing import Pool
        self.sids = self.schema_ids()
        with Pool(common.NCPU) as p:
            p.map(_render, self.sids)
        self.exe = cppdrv.build(self.sids, flags=cppdrv.ASAN + self.defines)
        self.schemas = {cppdrv.sid_name(s): pylib.schema_by_id(s) for s in self.sids}
        self.names = list(self.schemas)
        # generated Python classes: source of the expected schema texts
        self.drv = None

    def driver(self):
        if self.drv is None or self.drv_pid != os.getpid():
            self.drv = Driver(self.exe, timeout=40)
            self.drv_pid = os.getpid()
        return self.drv

    def root(self):
        return os.path.join(common.scratch(), "d%d" % os.getpid())

    def fresh_root(self):
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(os.path.join(root, "d"))
        return root

    # a scenario's commands refer to the scratch directory as @
    def raw_run(self, sc):
        root = self.fresh_root()
        self.setup_disk(sc, root)
        cmds = self.commands(sc)
        cmds = [c.replace("@", root) for c in cmds]
        resp, st, out = self.driver().run(cmds)
        return root, cmds, resp, st, out

    def setup_disk(self, sc, root):
        pass

    def commands(self, sc):
        pre = ["B @/d"] + rule_cmds(sc.get("rules", ()), sc.get("cap", -1))
        return pre + sc["cmds"] + ["L", "X"] + sc.get("post", [])

    def make_model(self, sc, root):
        return Model(self.schemas)

    def execute(self, sc):
        root, cmds, resp, st, out = self.raw_run(sc)
        try:
            return self.judge(sc, root, cmds, resp, st, out)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def judge(self, sc, root, cmds, resp, st, out):
        ops, kinds, entries = 0, {}, []
        for c, r in zip(cmds, resp):
            if c == "L":
                ops, kinds, entries = parse_log(r.split(" ", 1)[1])
        trace = ["%s => %s" % (c[:200], r[:200]) for c, r in list(zip(cmds, resp)) if not c.startswith(("R ", "L"))][:60]
        trace += ["%d %s %s %d -> %d %s" % (e[0], e[2], e[3], e[4], e[5], e[6]) for e in entries if e[6]][:20]
        stats = {"ops": ops, "faults": kinds, "seeds": 1, "commands": len(cmds)}
        extra = sum(1 for c in sc["cmds"] if c.startswith("af "))
        if extra:
            n = sum(int(r.split("failed ")[1]) for r in resp if "failed " in r and " allocs " in r)
            if n:
                stats["faults"] = dict(kinds, failed_allocation=n)
        if any(" flt " in c for c in sc["cmds"]):
            h = int(resp[-1].split(" ")[0][1:]) if resp else 0
            if h:
                stats["faults"] = dict(stats["faults"], storage_stream=h)
        nontrivial = bool(stats["faults"]) or self.always_nontrivial
        m = self.make_model(sc, root)
        self.model = m
        if st:
            return Result(violation=cppdrv.crash_text(st, resp, cmds, self.driver().stderr()), key="crash", nontrivial=True, trace=trace, stats=stats)
        if len(resp) != len(cmds):
            raise RuntimeError("driver answered %d of %d commands" % (len(resp), len(cmds)))
        try:
            m.run(cmds, resp)
            self.final(sc, root, m, cmds, resp)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=nontrivial, trace=trace, stats=stats)
        stats["acked"] = m.acks
        stats["failed"] = m.fails
        sig = sorted("%s/%s/%s" % (e[2], e[3].split("/")[-1], e[6].split("@")[0]) for e in entries if e[6])
        key = "|".join([sc.get("schema", ""), ",".join(sig)[:300], str(m.fails), ",".join(m.outcomes)]) if nontrivial else "trivial"
        return Result(key=key, nontrivial=nontrivial, trace=trace, stats=stats)

    always_nontrivial = False

    def final(self, sc, root, m, cmds, resp):
        self.check_disk(root, m)

    def check_disk(self, root, m, stray=True, known=()):
        want = m.expected_disk(root + "/d/")
        if not want:
            return
        got = pylib.read_dir(os.path.join(root, "d"))
        for f, b in want.items():
            if got.get(f) != b and f not in known:
                raise Violation("lost-ack: %s was reported as written but %s" % (
                    f, "is missing" if f not in got else "holds other bytes (%d, expected %d)" % (len(got[f]), len(b))))
        if stray and m.fails == 0 and not m.ever_crashed:
            for f in got:
                if f not in want and f != "none.tar" and not any(f.startswith(x) for x in self.may_remain(m, root)):
                    raise Violation("stray-file: %s is there although nothing failed" % f)

    def may_remain(self, m, root):
        """files of resources that are being streamed and were not closed"""
        out = []
        for (d, name), a in m.res.items():
            if not a.acked and d.startswith("F:" + root + "/d/"):
                out.append(d[len("F:" + root + "/d/"):] + name)
        return out

    # ------------------------------------------------------------ generation
    def workload(self, rng, seed, name=None, mix=None, **kw):
        """(schema name, archive index, values, commands without storage creation)"""
        name = name or rng.choice([x for x in self.names if x != "wide"])
        schema = self.schemas[name]
        ai = len(schema.archives) - 1
        arch = schema.archives[ai]
        scale = kw.pop("scale", None)
        vals = values_for(schema, arch, seed, rng, scale=scale)
        ids = Ids()
        tasks = archive_tasks(rng, schema, arch, vals, 1, ids, **kw)
        cmds = ["b 1 %s %d 0" % (name, ai)] + interleave(rng, tasks, rng.choice([0, 0.1, 0.6]) if mix is None else mix)
        return name, ai, vals, cmds

    def big_scenarios(self, rng, plans_of, count, post=()):
        """streams longer than the internal buffers, with faults at what follows the first flush"""
        from .cppstream import big_workload
        name, ai, _, wl = big_workload(rng, self.schemas["wide"], rng.choice([33 << 20, 34 << 20, 66 << 20]))
        base = dict(schema=name, rules=[], cap=-1, cmds=["S 0 fc @/d/a"] + wl, post=list(post) + self.reopen(name, ai))
        ops = self.profile(base)
        bigs = [k for k, e in enumerate(ops) if e[2] == "write" and e[4] > 1 << 20] or [0]
        near = [p for k in bigs for e in ops[k:k + 6] for p in plans_of(e)]
        plans = [p for e in ops[max(0, bigs[0] - 1):] for p in plans_of(e)]
        rng.shuffle(near)
        rng.shuffle(plans)
        plans = near[:count] + plans
        yield base
        for rules in plans[:2 * count]:
            yield dict(base, rules=rules)

    def reopen(self, name, ai, path="@/d/a"):
        return ["S 90 fo " + path, "o 90 %s %d 90" % (name, ai), "d 90", "ds 90"]

    def profile(self, sc):
        """operation log of a scenario without faults"""
        root, cmds, resp, st, out = self.raw_run(dict(sc, rules=[], cap=-1))
        shutil.rmtree(root, ignore_errors=True)
        for c, r in zip(cmds, resp):
            if c == "L":
                return parse_log(r.split(" ", 1)[1])[2]
        return []

    def shrinks(self, sc):
        if sc.get("cap", -1) >= 0:
            yield dict(sc, cap=-1)
        cm = sc.get("cmds", [])
        for i, c in enumerate(cm):
            t = c.split(" ") if isinstance(c, str) else [""]
            if t[0] == "set" and len(t) > 3 and ";" in t[3]:
                rows = t[3].split(";")
                yield dict(sc, cmds=cm[:i] + [" ".join(t[:3] + [";".join(rows[:len(rows) // 2])])] + cm[i + 1:])
            if t[0] == "set" and len(t) > 3 and t[3].startswith("x") and len(t[3]) > 40:
                yield dict(sc, cmds=cm[:i] + [" ".join(t[:3] + [t[3][:1 + (len(t[3]) // 4) * 2]])] + cm[i + 1:])


def _render(sid):
    s = pylib.schema_by_id(sid)
    pylib.rendered(s, "cpp")
    pylib.rendered(s, "py")


def err_rules(rng, e, stick=0.25):
    """fault plans for one operation of a profile"""
    out = []
    for er in ERRS.get(e[2], []):
        out.append([[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, 1]])
        if rng.random() < stick:
            out.append([[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, 0]])
    if e[2] == "write" and e[4] > 1:
        for j in set([rng.randint(1, e[4] - 1), min(8, e[4] - 1), min(16, e[4] - 1), e[4] - 1]):
            out.append([[e[0], KLASS["write"], "", 0, A_TORN, j, rng.choice([ENOSPC, EIO]), 1]])
    return out


class P01(CppCheck):
    prop = "P01"
    flt = True
    level = "exploration"
    rule = ("one run = one workload (schema, values, order and interleaving of set and streaming calls, sub-archives) executed by the real C++ builder "
            "over the simulated disk or a storage that cannot provide streams, with a fault plan: every operation of a workload with each error kind, "
            "torn writes, full disks, random plans, benign short and interrupted writes; non-trivial = at least one fault fired")
    measure = "distinct (schema, fault kinds with operation and file, number of failed calls, what the reopened archive shows)"

    def schema_ids(self):
        return CppCheck.schema_ids(self) + ["wide"]

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p01/%d" % (self.seed, i)
            n = i // nworkers
            i += nworkers
            rng = random.Random(seed)
            if n % 9 == 1:
                for sc in self.big_scenarios(rng, lambda e: err_rules(rng, e), 4):
                    yield sc
                    if stop():
                        return
                continue
            name, ai, vals, wl = self.workload(rng, seed, name=self.names[0] if rng.random() < 0.3 else None)
            base = dict(schema=name, rules=[], cap=-1, cmds=["S 0 fc @/d/a"] + wl, post=self.reopen(name, ai))
            yield base
            ops = self.profile(base)
            total = sum(e[4] for e in ops if e[2] == "write")
            plans = []
            for e in ops:
                plans += err_rules(rng, e)
            rng.shuffle(plans)
            for rules in plans[:90]:
                yield dict(base, rules=rules)
                if stop():
                    return
            for k in range(25):
                rules = []
                for _ in range(rng.randint(1, 4)):
                    e = rng.choice(ops)
                    if e[2] in ERRS:
                        rules += rng.choice(err_rules(rng, e))
                if rng.random() < 0.4:
                    rules.append([-1, KLASS["write"], "", rng.randint(0, 20), A_SHORT, rng.choice([1, 7, 8, 9, 100]), 0, rng.choice([1, 3, 0])])
                yield dict(base, rules=rules, cap=rng.choice([-1, -1, rng.randint(0, total), rng.randint(0, total)]))
                if stop():
                    return
            for k in range(8):     # benign only
                rules = [[-1, KLASS["write"], "", rng.randint(0, 6), A_SHORT, rng.choice([1, 3, 8, 13, 4000]), 0, 0]]
                if k % 2:
                    rules.append([-1, KLASS["write"], "", rng.randint(0, 30), A_ERRNO, 0, EINTR, rng.choice([1, 2])])
                yield dict(base, rules=rules)
                if stop():
                    return
            # a storage that cannot always provide streams
            nstreams = 2 * len(wl)
            for k in range(25 if self.flt else 0):
                null_at = rng.choice([-1, rng.randint(0, 12), rng.randint(0, nstreams)])
                limit_at = rng.choice([-1, rng.randint(0, 12), rng.randint(0, nstreams)])
                cm = ["S 0 flt %d %d %d %d %d" % (null_at, rng.choice([1, 1, 2, 1000]), limit_at, rng.choice([0, 1, 7, 8, 15, 16, 17, 30, 200]),
                                                  int(rng.random() < 0.2))] + wl
                yield dict(base, cmds=cm, post=["SF 0", "o 90 %s %d 0" % (name, ai), "d 90", "ds 90"])
                if stop():
                    return
            # reading-only storages as targets
            if rng.random() < 0.5:
                yield dict(base, cmds=["S 0 tar @/d/none.tar"] + wl, post=[], tar=True)

    def setup_disk(self, sc, root):
        if sc.get("tar"):
            import tarfile
            with tarfile.open(os.path.join(root, "d", "none.tar"), "w"):
                pass

    def make_model(self, sc, root):
        m = Model(self.schemas)
        if sc.get("tar"):
            # nothing can be written there: every failure is excused
            m.excuse = lambda a, b, what: None
            real = m.open_builder

            def ob(bid, schema, arch, d, text, h0, h1):
                if text == "open":
                    raise Violation("false-success: a builder on a read-only storage reports to be open")
                real(bid, schema, arch, d, text, h0, h1)
            m.open_builder = ob
        return m


class P02(CppCheck):
    prop = "P02"
    level = "exploration"
    rule = ("one run = one workload executed by the real C++ builder over the simulated disk, stopped at one operation or inside one write after a given "
            "number of bytes, optionally after other faults, then reopened on what the disk holds; non-trivial = the crash fired")
    measure = "distinct (schema, operation and file of the crash, number of failed calls, what the reopened archive shows)"

    def schema_ids(self):
        return CppCheck.schema_ids(self) + ["wide"]

    def crash_rules(self, rng, e):
        if e[2] == "write":
            return [[[e[0], 0, "", 0, A_CRASH, rng.choice([0, e[4], rng.randint(0, e[4])]), 0, 1]]]
        if e[2] in ("create", "mkdir", "close", "seek", "rename", "unlink", "truncate", "mmap"):
            return [[[e[0], 0, "", 0, A_CRASH, 0, 0, 1]]]
        return []

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p02/%d" % (self.seed, i)
            n = i // nworkers
            i += nworkers
            rng = random.Random(seed)
            if n % 5 == 1:
                for sc in self.big_scenarios(rng, lambda e: self.crash_rules(rng, e), 6, ["T"]):
                    yield sc
                    if stop():
                        return
                continue
            name, ai, vals, wl = self.workload(rng, seed, name=self.names[0] if rng.random() < 0.3 else None)
            base = dict(schema=name, rules=[], cap=-1, cmds=["S 0 fc @/d/a"] + wl, post=["T"] + self.reopen(name, ai))
            yield base
            ops = self.profile(base)
            plans = []
            for e in ops:
                if e[2] == "write":
                    n = e[4]
                    pts = set([0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 25, n - 17, n - 16, n - 9, n - 8, n - 7, n - 1, n] + [rng.randint(0, max(0, n)) for _ in range(3)])
                    for j in sorted(x for x in pts if 0 <= x <= n):
                        plans.append([[e[0], 0, "", 0, A_CRASH, j, 0, 1]])
                elif e[2] in ("create", "mkdir", "close", "seek", "rename", "unlink", "truncate", "mmap"):
                    plans.append([[e[0], 0, "", 0, A_CRASH, 0, 0, 1]])
            rng.shuffle(plans)
            for rules in plans[:200]:
                extra = []
                x = rng.random()
                if x < 0.12:
                    e = rng.choice(ops)
                    if e[2] in ERRS and e[0] < rules[0][0]:
                        extra = rng.choice(err_rules(rng, e))
                elif x < 0.3:
                    extra = [[-1, KLASS["write"], "", rng.randint(0, 4), A_SHORT, rng.choice([1, 8, 9, 16, 20]), 0, 0]]
                yield dict(base, rules=rules + extra if x < 0.12 else extra + rules)
                if stop():
                    return

    def commands(self, sc):
        pre = ["B @/d"] + rule_cmds(sc.get("rules", ()), sc.get("cap", -1))
        return pre + sc["cmds"] + ["L", "X"] + sc.get("post", [])
