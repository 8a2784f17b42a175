"""P07 and P08: threads of one process under the thread simulator (cpp/thread_rt.c)."""
import hashlib
import os
import random
import re
import shutil
import subprocess

from . import common, cppdrv, pylib
from . import cppcheck as cc
from . import diskmodel as dm
from .common import Result, Violation
from .cppcheck import CppCheck, archive_tasks, interleave, parse_log, rule_cmds, values_for
from .cppdrv import Driver, parse_dump, part_dump
from .cppmodel import Model
from .cppstream import stream_tasks
from .simlib import A_ERRNO, A_SHORT, KLASS
from .tarcheck import pack, rand_pack

EINTR = 4
U32 = 1 << 32


def schedules(rng, horizon):
    """how the simulated scheduler chooses: [mode, seed, switch probability at accesses, at locks and I/O, change points, horizon]"""
    s = rng.randrange(1 << 48)
    k = rng.random()
    if k < 0.35:
        return [1, s, 0, 0, rng.choice([0, 1, 1, 2, 3, 5, 10]), max(10, rng.choice([horizon, horizon, horizon // 4, horizon * 2]))]
    if k < 0.5:
        return [0, s, 0, rng.choice([U32 // 2, U32 // 4, U32 // 10]), 0, 0]
    per = rng.choice([3, 10, 40, 200, 1000, 5000])
    return [0, s, U32 // per, min(U32 // 2, U32 // per * rng.choice([1, 4, 20])), 0, 0]


class ThreadCheck(CppCheck):
    level = "exploration"
    always_nontrivial = True
    measure = "distinct schedules: hash of the sequence of (step, thread) switches, together with the workload"
    reducible = ("par", "plan", "post")
    nrandom = {"quick": 5, "thorough": 16}
    real = ("flatdata-cpp: ArchiveBuilder, Archive, ResourceStorage, ExternalVector, MultiVector, FileResourceStorage, MemoryResourceStorage, TarArchiveResourceStorage, memory mapping, "
            "DebugDataAccessStatistics (current tree, instrumented)", "flatdata-generator: C++ code of every schema used, generated from the current tree", "libstdc++ containers, iostreams, boost.filesystem")
    stub = ("thread scheduler: threads are real but run one at a time, as a seeded scheduler decides at every instrumented memory access, atomic, lock and file operation",
            "mutexes, reader-writer locks, condition variables, once flags, static initialisation guards, thread creation and joining (simulated)", "heap (nothing is reused, so that stale accesses show)",
            "kernel file system calls below the scratch directory (interposed; real tmpfs behind them)")
    assumptions = ("memory accesses are sequentially consistent; weaker orders show as data races, which are reported for every access not ordered by locks or atomics",
                   "libstdc++ and boost code that is compiled into their shared libraries is only observed at the calls to memcpy, memmove, memset, memcmp, strlen and tree rebalancing it makes")

    def prepare(self):
        from multiprocessing import Pool
        self.sids = self.schema_ids()
        with Pool(common.NCPU) as p:
            p.map(cc._render, self.sids)
        self.exe = cppdrv.build_threads(self.sids)
        self.exe_stats = cppdrv.build_threads(self.sids[:3], stats=True) if self.with_stats else None
        self.schemas = {cppdrv.sid_name(s): pylib.schema_by_id(s) for s in self.sids}
        self.names = list(self.schemas)
        self.drv = {}

    with_stats = False

    def thr_driver(self, stats):
        k = (os.getpid(), stats)
        if k not in self.drv:
            cpu = getattr(self, "cpu", 0)
            self.drv[k] = Driver(self.exe_stats if stats else self.exe, timeout=40, args=[str(cpu)])
        return self.drv[k]

    # ------------------------------------------------------------ running
    def lines(self, sc):
        pre = ["B @/d"] + rule_cmds(sc.get("rules", ())) + sc["pre"]
        n = max([k for k, _ in sc["par"]], default=-1) + 1
        par = ["T%d %s" % (k, c) for t in range(n) for k, c in sc["par"] if k == t]
        z = "Z " + " ".join(str(x) for x in sc["sched"])
        if sc.get("plan") is not None:
            z = " ".join(["PLAN"] + ["%d:%d" % (a, b) for a, b in sc["plan"]])
        return [z] + pre + par + ["L", "X"] + sc["post"]

    def run_once(self, sc, root):
        lines = [c.replace("@", root) for c in self.lines(sc)]
        resp, st, out = self.thr_driver(bool(sc.get("stats"))).run(lines)
        marks = [r for r in out if r.startswith("@")]
        body = [r for r in resp if not r.startswith("@")]
        stats_text = None
        if "@stats" in out:
            k = out.index("@stats")
            stats_text = out[k + 1:]
            body = [r for r in out[:k] if not r.startswith("@")]
            if len(body) == len(lines):
                st = 0 if st == 0 else st
        return lines, body, st, marks, stats_text

    def symbol(self, pcs, stats):
        exe = self.exe_stats if stats else self.exe
        try:
            o = subprocess.run(["addr2line", "-f", "-C", "-i", "-e", exe] + ["0x%x" % (int(p, 16) - 1) for p in pcs], capture_output=True, text=True, timeout=30).stdout.splitlines()
        except Exception:
            return ""
        out = []
        for f, l in zip(o[::2], o[1::2]):
            l = l.split(" (")[0].replace(common.REPO + "/", "")
            if "/c++/" in l or "thread_rt" in l or f.startswith("std::") or "??" in l:
                continue
            s = "%s (%s)" % (re.sub(r"<.*>", "", f.split("(")[0])[:80], l.split("/")[-1])
            if s not in out:
                out.append(s)
        return " < ".join(out[:4])

    def finding(self, marks, st, stats):
        for m in marks:
            if m.startswith("@fatal"):
                t = m[7:]
                if t.startswith("harness"):
                    raise RuntimeError(t)
                return t
        for m in marks:
            if m.startswith("@race") or m.startswith("@freed"):
                g = re.match(r"@(race|freed) (.*?) at pc ([0-9a-f]+) stack((?: [0-9a-f]+)*) (with thread -?\d+|freed at) pc ([0-9a-f]+)", m)
                if not g:
                    return "race: " + m[6:]
                a = self.symbol([g.group(3)] + g.group(4).split(), stats)
                b = self.symbol([g.group(6)], stats) if int(g.group(6), 16) else "?"
                kind = "data-race" if g.group(1) == "race" else "use-after-free"
                return "%s: %s in %s | %s: %s" % (kind, g.group(2), a, g.group(5), b)
        return None

    def judge_once(self, sc, root, allow_missing=()):
        """runs the scenario once -> (Result or None, answers, statistics text, marks)"""
        lines, body, st, marks, stats_text = self.run_once(sc, root)
        steps = next((m.split(" ") for m in marks if m.startswith("@steps")), ["", "0", "0", "0"])
        plan = next((m for m in marks if m.startswith("@plan")), "@plan")
        self.last_plan = None if plan == "@plan -" else [[int(x) for x in p.split(":")] for p in plan.split(" ")[1:]]
        self.last_steps = int(steps[1])
        thr = next((m.split(" ") for m in marks if m.startswith("@thr")), ["", "0", "0", "0"])
        ops, kinds, entries = 0, {}, []
        for c, r in zip(lines, body):
            if c == "L":
                ops, kinds, entries = parse_log(r.split(" ", 1)[1])
        faults = dict(kinds)
        faults["preemption"] = int(steps[2])
        stats = {"ops": self.last_steps, "file_operations": ops, "faults": faults, "seeds": 1, "commands": len(lines), "memory_accesses": int(thr[1]), "locks_taken": int(thr[2]), "locks_contended": int(thr[3])}
        trace = ["%s => %s" % (c[:160], r[:160]) for c, r in zip(lines, body) if not c.startswith(("R ", "L", "Z ", "PLAN"))][:60]
        if self.last_plan is not None:
            trace.append("switches (step:thread): " + " ".join("%d:%d" % (a, b) for a, b in self.last_plan[:200]))
        f = self.finding(marks, st, bool(sc.get("stats")))
        if f:
            return Result(violation=f, key="violation", nontrivial=True, trace=trace, stats=stats), body, stats_text, marks
        if st or len(body) != len(lines):
            if not st:
                raise RuntimeError("driver answered %d of %d lines" % (len(body), len(lines)))
            where = "while threads ran" if "@parallel" in marks and "@joined" not in marks else "in " + (lines[len(body)][:100] if len(body) < len(lines) else "destruction")
            kind = "hang: no progress" if st == 1014 else "crash: %s" % ("signal %d" % (st - 1000) if st >= 1000 else "exit %d" % st)
            err = [l for l in self.thr_driver(bool(sc.get("stats"))).stderr().splitlines() if l]
            return Result(violation="%s %s %s" % (kind, where, " / ".join(err[-3:])[:300]), key="crash", nontrivial=True, trace=trace, stats=stats), body, stats_text, marks
        key = hashlib.sha256((sc["work"] + steps[3]).encode()).hexdigest()[:16]
        return Result(key=key, nontrivial=True, trace=trace, stats=stats), body, stats_text, marks

    def plain(self, sc, root, lines_body):
        """(commands, answers) as the model reads them: threads one after the other"""
        lines = [c.replace("@", root) for c in self.lines(sc)]
        cmds, resp = [], []
        for c, r in zip(lines, lines_body):
            if c.startswith(("Z ", "PLAN")):
                continue
            cmds.append(c[3:] if re.match(r"T\d ", c) else c)
            resp.append(r)
        return cmds, resp

    def check_model(self, sc, root, r, body):
        cmds, resp = self.plain(sc, root, body)
        m = self.make_model(sc, root)
        try:
            m.run(cmds, resp)
            self.final(sc, root, m, cmds, resp)
        except Violation as v:
            r.violation = str(v)
            r.key = "violation"
        r.stats["acked"] = m.acks

    def make_model(self, sc, root):
        return Model(self.schemas)

    def execute(self, sc):
        root = self.fresh_root()
        try:
            self.setup_disk(sc, root)
            r, body, stats_text, marks = self.judge_once(sc, root)
            if not r.violation:
                self.check_model(sc, root, r, body)
            if not r.violation:
                self.more(sc, root, r, body, stats_text)
            return r
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def more(self, sc, root, r, body, stats_text):
        pass

    def shrinks(self, sc):
        if sc.get("rules"):
            yield dict(sc, rules=[])
        if sc.get("plan") is None:
            self.execute(sc)
            if self.last_plan is not None:
                yield dict(sc, plan=self.last_plan)
        yield from super().shrinks(sc)

    def distribute(self, rng, tasks, n, mix):
        groups = [[] for _ in range(n)]
        rng.shuffle(tasks)
        for i, t in enumerate(tasks):
            groups[i if i < n else rng.randrange(n)].append(t)
        return [[k, c] for k, g in enumerate(groups) for c in interleave(rng, g, mix)]


class P07(ThreadCheck):
    prop = "P07"
    rule = ("one run = one archive (seeded schema and values) whose resources are written by 2 to 5 threads with the real C++ library - set, streamed vectors and multivectors, sub-archives, on file or in-memory "
            "storage, with interrupted and short writes - under one seeded schedule; the reference model judges every answer, the reopened archive and every file as if the threads had run one after "
            "the other; a vector clock detector reports races, the simulated locks report deadlocks; every run counts as non-trivial")

    def scenarios(self, worker, nworkers, stop):
        self.cpu = worker
        i = worker
        while True:
            seed = "%d/p07/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            base = self.workload7(rng, seed)
            base["sched"] = [1, 1, 0, 0, 0, 10]
            yield dict(base)
            horizon = max(20, self.last_steps)
            for k in range(12):
                sc = dict(base, sched=schedules(rng, horizon), rules=[])
                if base["store"] == "fc" and rng.random() < 0.3:
                    for _ in range(rng.choice([1, 2, 4])):
                        sc["rules"].append([-1, KLASS["write"], "", rng.randrange(12), rng.choice([A_SHORT, A_SHORT, A_ERRNO]), rng.choice([0, 1, 7]), EINTR, 1])
                yield sc
                if stop():
                    return

    def workload7(self, rng, seed):
        name = rng.choice(self.names)
        schema = self.schemas[name]
        store = rng.choice(["fc", "mem"])
        ids = cc.Ids()
        n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        pre = ["S 0 %s" % ("fc @/d/a" if store == "fc" else "mem")]
        dirs = [("0", "@/d/a")]
        if rng.random() < 0.3:
            d = ids()
            pre.append("SD %d 0 other c" % d)
            dirs.append((str(d), "@/d/a/other"))
        tasks, post = [], []
        for sid, path in dirs:
            ai = len(schema.archives) - 1 if sid == "0" else rng.randrange(len(schema.archives))
            arch = schema.archives[ai]
            vals = values_for(schema, arch, seed + sid, rng, scale=rng.choice([0, 1, 3, 8, None]))
            b = ids()
            open_in_thread = sid != "0" and rng.random() < 0.5
            ts = self.tasks(rng, schema, arch, vals, b, ids, pre)
            if open_in_thread and not any(c.startswith("bs") for c in pre if c.split(" ")[2:3] == [str(b)]):
                tasks.append(["b %d %s %d %s" % (b, name, ai, sid)] + interleave(rng, ts, 0.5))
            else:
                k = next((j for j, c in enumerate(pre) if c.startswith("bs") and c.split(" ")[2] == str(b)), len(pre))
                pre.insert(k, "b %d %s %d %s" % (b, name, ai, sid))
                tasks += ts
            o = ids()
            post += ["o %d %s %d %s" % (o, name, ai, sid), "d %d" % o, "ds %d" % o]
            if store == "fc":
                s2, o2 = ids(), ids()
                post += ["S %d fo %s" % (s2, path), "o %d %s %d %d" % (o2, name, ai, s2), "d %d" % o2, "ds %d" % o2]
        # resources written through the storage itself, and lookups of what is there already
        for j in range(rng.choice([0, 0, 1, 2])):
            k = "own%d" % j
            tasks.append(["ex 0 %s" % k, "wr 0 %s sch%d %s" % (k, j, rng.choice(["x", "x01", "z77", "z5000"])), "ex 0 %s" % k, "rx 0 %s sch%d" % (k, j), "rx 0 %s other" % k])
        if rng.random() < 0.3:  # several threads ask for the same directory
            for j in range(rng.choice([2, 2, 3])):
                d = ids()
                tasks.append(["SD %d 0 both c" % d, "wr %d in%d sch%d z%d" % (d, j, j, rng.choice([0, 1, 77, 5000])), "ex %d in%d" % (d, j), "rx %d in%d sch%d" % (d, j, j)])
            d = ids()
            post += ["SD %d 0 both o" % d, "rx %d in0 sch0" % d, "rx %d in1 sch1" % d]
        if rng.random() < 0.4:
            pre.append("wr 0 before schb z300")
            for _ in range(rng.choice([1, 1, 2, 3])):
                tasks.append([rng.choice(["ex 0 before", "rx 0 before schb", "rx 0 before other", "ex 0 nothing", "rs 0 before"]) for _ in range(rng.randint(1, 5))])
        work = hashlib.sha256(seed.encode()).hexdigest()[:12]
        return dict(schema=name, store=store, pre=pre, par=self.distribute(rng, tasks, min(n, max(1, len(tasks))), rng.choice([0, 0.3])), post=post, plan=None, rules=[], work=work)

    def tasks(self, rng, schema, arch, vals, b, ids, pre, memory_vectors=True):
        """independent writers of one archive; those of sub-archives may be in different threads, too"""
        flat, subs = {}, []
        for i, r in enumerate(arch.resources):
            if r.name in vals and r.kind == "archive" and rng.random() < 0.5:
                subs.append((i, r))
            elif r.name in vals:
                flat[r.name] = vals[r.name]
        if rng.random() < 0.5 or not memory_vectors:
            out = archive_tasks(rng, schema, arch, flat, b, ids, 0.5, 0.2)
        else:
            out = stream_tasks(rng, schema, arch, flat, b, ids, 0.2, 0.3)
        for i, r in subs:
            sb = ids()
            opens = "bs %d %d %d" % (sb, b, i)
            if rng.random() < 0.5:
                pre.append(opens)
                out += self.tasks(rng, schema, schema.archive(r.types[0]), vals[r.name], sb, ids, pre)
            else:  # the thread that writes a sub-archive creates it, too
                below = []
                ts = self.tasks(rng, schema, schema.archive(r.types[0]), vals[r.name], sb, ids, below)
                out.append([opens] + below + interleave(rng, ts, 0.5))
        return out

    def final(self, sc, root, m, cmds, resp):
        if sc["store"] == "fc":
            self.check_disk(root, m, stray=False)


class P08(ThreadCheck):
    prop = "P08"
    with_stats = True
    rule = ("one run = 2 to 5 threads that open and read one stored archive (seeded schema and values) with the real C++ library over one shared directory, TAR or in-memory storage, over storages of "
            "their own, or through one shared archive object, under one seeded schedule; the reference model judges every value read; a vector clock detector reports races, the simulated locks report "
            "deadlocks; builds with data access statistics must print what a sequential execution prints; every run counts as non-trivial")

    def scenarios(self, worker, nworkers, stop):
        self.cpu = worker
        i = worker
        while True:
            seed = "%d/p08/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            base = self.workload8(rng, seed)
            base["sched"] = [1, 1, 0, 0, 0, 10]
            yield dict(base)
            horizon = max(20, self.last_steps)
            for k in range(12):
                yield dict(base, sched=schedules(rng, horizon))
                if stop():
                    return

    def workload8(self, rng, seed):
        stats = rng.random() < 0.35
        name = rng.choice(self.names[:3] if stats else self.names)
        schema = self.schemas[name]
        ai = len(schema.archives) - 1
        kind = rng.choice(["fo", "fo", "tar", "mem"])
        scale = rng.choice([0, 1, 3, 8])
        ids = cc.Ids()
        n = rng.choice([2, 2, 2, 3, 3, 4, 5])
        pre = []
        work = hashlib.sha256(seed.encode()).hexdigest()[:12]
        sc = dict(schema=name, ai=ai, kind=kind, values=seed, scale=scale, plan=None, rules=[], work=work, stats=stats, packing=None)
        if kind == "mem":
            vals = self.vals(sc)
            pre = ["S 0 mem", "b 1 %s %d 0" % (name, ai)] + interleave(rng, archive_tasks(rng, schema, schema.archives[ai], vals, 1, ids), 0) + ["bd 1"]
            if rng.random() < 0.3:
                pre += ["ex 0 a", "rs 0 b"]
        elif kind == "tar":
            sc["packing"] = rand_pack(rng, seed)
            sc["sub"] = rng.choice(["", "", "x", "deep/er"])
            pre = ["S 0 tar @/d/a.tar" + (" " + sc["sub"] if sc["sub"] else "")]
        else:
            pre = ["S 0 fo @/d/a"]
        shared = None
        if rng.random() < 0.5:
            shared = ids()
            pre += ["o %d %s %d 0" % (shared, name, ai)]
        arch = schema.archives[ai]
        names = [arch.name + ".archive"] + [r.name for r in arch.resources] + ["nothing"]
        subs = [r for r in arch.resources if r.kind == "archive"]
        tasks = []
        stride = rng.choice([2, 2, 3, 3, 5, 11])
        full = not (stats and rng.random() < 0.7)       # what is read completely sets every mark of the statistics again

        def parts(o):
            return ["dp %s %d %d" % (o, stride, rng.randrange(stride)) for _ in range(rng.choice([1, 1, 2]))]

        for _ in range(n + rng.choice([0, 0, 1, 2])):
            t = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.random()
                if k < 0.5:
                    o = ids()
                    t += ["o %d %s %d 0" % (o, name, ai)] + rng.choice([["d %d" % o], parts(o), parts(o), ["d %d" % o, "ds %d" % o], ["ds %d" % o], []]) + (["ax %d" % o] if rng.random() < 0.5 else [])
                elif k < 0.65 and shared:
                    t += rng.choice([["d %d" % shared], parts(shared), parts(shared), ["ds %d" % shared]])
                elif k < 0.7 and kind != "mem":
                    s, o = ids(), ids()
                    t += ["S %d" % s + pre[0][3:], "o %d %s %d %d" % (o, name, ai, s), "d %d" % o] + rng.choice([[], ["SX %d" % s], ["SX %d" % s, "ds %d" % o], ["SX %d" % s, "d %d" % o, "ax %d" % o]])
                elif k < 0.8 and subs:
                    s, o = ids(), ids()
                    r = rng.choice(subs)
                    si = next(j for j, a in enumerate(schema.archives) if a.name == r.types[0])
                    t += ["SD %d 0 %s o" % (s, r.name), "o %d %s %d %d" % (o, name, si, s), "d %d" % o]
                else:
                    x = rng.choice(names)
                    t += [rng.choice(["ex 0 %s", "rs 0 %s", "rd 0 %s"]) % x]
            tasks.append(t)
        o, s = ids(), ids()
        post = ["o %d %s %d 0" % (o, name, ai), "d %d" % o, "ds %d" % o]
        if not full:
            tasks = [[x for c in t for x in (parts(c[2:]) if c.startswith("d ") else [c])] for t in tasks]
            post = ["o %d %s %d 0" % (o, name, ai)] + parts(str(o))
        return dict(sc, pre=pre, par=self.distribute(rng, tasks, n, rng.choice([0, 0.3])), post=post)

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return values_for(schema, schema.archives[sc["ai"]], sc["values"], random.Random(sc["values"] + "/opt"), scale=sc["scale"])

    def setup_disk(self, sc, root):
        if sc["kind"] == "mem":
            return
        schema = self.schemas[sc["schema"]]
        files = dm.archive_files(schema, schema.archives[sc["ai"]], self.vals(sc))
        if sc["kind"] == "fo":
            dm.write_tree(os.path.join(root, "d", "a"), files, dm.dirs_of(files))
            return
        pre = sc["sub"] + "/" if sc["sub"] else ""
        whole = {pre + f: b for f, b in files.items()}
        tar, _ = pack(whole, dm.dirs_of(whole), sc["packing"])
        with open(os.path.join(root, "d", "a.tar"), "wb") as f:
            f.write(tar)

    model = Model

    def make_model(self, sc, root):
        m = self.model(self.schemas)
        schema = self.schemas[sc["schema"]]
        key = {"fo": "F:%s/d/a/" % root, "tar": "T:%s/d/a.tar:%s" % (root, sc.get("sub") and sc["sub"] + "/" or "")}.get(sc["kind"])
        if key:
            m.initial(schema, schema.archives[sc["ai"]], key, self.vals(sc))
        return m

    def final(self, sc, root, m, cmds, resp):
        schema = self.schemas[sc["schema"]]
        top = self.vals(sc)
        stored, opened = {}, {}
        for c, a in zip(cmds, resp):
            t, text = c.split(" "), a.split(" ", 1)[1]
            if t[0] == "S":
                stored[t[1]] = top
            elif t[0] == "SD":
                stored[t[1]] = top.get(t[3])
            elif t[0] == "o":
                opened[t[1]] = (schema.archives[int(t[3])], stored.get(t[4]) if text == "open" else None)
            elif t[0] == "dp" and opened.get(t[1], (0, None))[1] is not None:
                got, want = parse_dump(text)[0], part_dump(schema, *opened[t[1]], int(t[2]), int(t[3]))
                if got != want:
                    bad = sorted(p for p in set(got) | set(want) if got.get(p) != want.get(p))
                    raise Violation("wrong-content: every %s. element of %s reads as %s, stored is %s [%s]" % (t[2], bad[0], got.get(bad[0]), want.get(bad[0]), c))

    def more(self, sc, root, r, body, stats_text):
        """against the same threads run one after the other"""
        seq = getattr(self, "seq", None)
        ident = repr((sc["work"], sc["par"], sc["pre"], sc["post"]))
        if seq is None or seq[0] != ident:
            plan, steps = self.last_plan, self.last_steps
            r2, body2, text2, _ = self.judge_once(dict(sc, plan=[]), root)
            self.last_plan, self.last_steps = plan, steps
            if r2.violation:
                r.violation = r2.violation + " (threads one after the other)"
                return
            seq = self.seq = (ident, body2, text2 and stats_blocks(text2, root))
        lines = [c for c in self.lines(sc)]
        for c, a, b in zip(lines, body, seq[1]):
            if c != "L" and a.split(" ", 1)[1] != b.split(" ", 1)[1]:
                r.violation = "different: %s answers %s, and %s when the threads run one after the other" % (c[:100], a[:200], b[:200])
                return
        if stats_text is not None:
            got = stats_blocks(stats_text, root)
            if got != seq[2]:
                x = [b for b in got if b not in seq[2]][:1]
                y = [b for b in seq[2] if b not in got][:1]
                r.violation = "wrong-statistics: printed %s, sequential executions print %s" % (" / ".join(x[0])[:400] if x else "one block less", " / ".join(y[0])[:400] if y else "one block less")
            r.stats["statistics_compared"] = 1


def stats_blocks(lines, root):
    """the printed statistics as a sorted list of blocks (their order depends on when resources are released)"""
    out, cur = [], []
    for l in lines:
        if l == "@done":
            continue
        l = l.replace(root, "@")
        if not l.startswith("        ") and cur:
            out.append(cur)
            cur = []
        cur.append(l.strip())
    if cur:
        out.append(cur)
    return sorted(out)
