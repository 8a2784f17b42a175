"""P12: several runs of the Python writer tool, in any interleaving, killed and repeated, make one archive."""
import gc
import json
import os
import random
import shutil
import sys

from . import common, pylib, simlib
from .common import Check, Result, Violation
from .procs import World
from .py_write import ERRS
from .simlib import A_CRASH, A_ERRNO, A_SHORT, A_TORN, KLASS


def memo_ast():
    """parsing the schema is not what is studied here: once per text (the processes are forked afterwards)"""
    import flatdata.generator.engine as eng
    orig = getattr(eng, "build_ast", None)
    if orig is None or getattr(orig, "memo", False):
        return
    known = {}

    def build(text, *a, **k):
        if a or k or not isinstance(text, str):
            return orig(text, *a, **k)
        if text not in known:
            known[text] = orig(text)
        return known[text]
    build.memo = True
    eng.build_ast = build


class P12(Check):
    prop = "P12"
    preload = True
    isolate = False
    reducible = ("slots", "plan")
    rule = ("one run = one archive written by 2 to 6 slots, each a sequence of invocations of the real writer tool (command line or Writer class) as forked processes that share a simulated disk; a seeded scheduler "
            "decides before every file-system call which process goes on; invocations are killed at a chosen call or byte of a write, or hit by errors, and repeated, also with other values; "
            "non-trivial = at least two processes interleaved, or a kill or fault happened")
    measure = "distinct (schema, slots, order in which the processes touch the files they share, faults, results of the invocations)"
    real = ("flatdata-py: writer.main, Writer, ArchiveBuilder, ResourceStorage, FileResourceWriter (current tree)", "flatdata-generator: Python generator (rendered once per text)", "CPython io, json, argparse")
    stub = ("kernel file system calls below the scratch directory (libc interposition; real tmpfs behind it)", "process start: fork of an interpreter with the library loaded")
    assumptions = ("process-kill model: what write() accepted survives the process",)

    def prepare(self):
        import multiprocessing as mp
        n = 6 if self.tier == "quick" else 40
        self.sids = ["pyfixed"] + [["rnd", self.seed * 1000 + i, 1] for i in range(n)]
        with mp.Pool(common.NCPU) as p:
            p.map(_warm, self.sids)
        import flatdata.lib.writer  # noqa
        import flatdata.lib.file_resource_storage  # noqa
        pylib.memo_engine()
        memo_ast()

    # ---------------------------------------------------------------- scenarios
    def scenarios(self, worker, nworkers, stop):
        i = worker
        warmed = []
        while True:
            seed = "%d/p12/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            sid = rng.choice(self.sids)
            schema = pylib.schema_by_id(sid)
            arch = schema.root()
            if sid not in warmed:
                # what the processes inherit is not for their garbage collector
                warmed.append(sid)
                pylib.cls(schema, arch.name)
                self.execute({"schema": sid, "values": "0", "slots": [], "sched": [0, 0], "where": "new", "extra": True, "plan": None, "scale": 0})
                import flatdata.generator.engine as eng
                for t in (self.text(schema, False), self.text(schema, True)):
                    try:
                        eng.Engine(t).render_python_module(archive_name=arch.name + "Builder")
                    except Exception:
                        pass
                gc.collect()
                gc.freeze()
            names = [r.name for r in arch.resources if r.kind != "archive"]
            for k in range(6):
                ns = list(names)
                rng.shuffle(ns)
                ns = ns[:rng.choice([1, 2, 3, 4, len(ns), len(ns)])]
                nslots = min(rng.choice([1, 2, 2, 3, 4, 6]), len(ns))
                groups = [ns[j::nslots] for j in range(nslots)]
                slots = []
                for g in groups:
                    phases = []
                    for ph in range(rng.choice([1, 1, 1, 2, 3])):
                        tries = []
                        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                            tries.append(self.attack(rng))
                        benign = [[-1, KLASS["write"], "", rng.randint(0, 8), A_SHORT] + rng.choice([[1, 0, 1], [7, 0, 5], [1, 0, 20], [1000, 0, 0]])] if rng.random() < 0.2 else []
                        phases.append({"v": ph if rng.random() < 0.6 else 0, "tries": tries, "last": benign})
                    for n in g:
                        # the command line writes one resource per invocation
                        cli = arch.res(n).kind != "raw_data" and (len(g) == 1 or rng.random() < 0.5)
                        if cli:
                            slots.append({"set": [n], "how": "cli", "phases": json.loads(json.dumps(phases))})
                    rest = [n for n in g if not any(n in s["set"] for s in slots)]
                    if rest:
                        slots.append({"set": rest, "how": "api", "phases": phases})
                yield {"schema": sid, "values": seed + "/%d" % k, "slots": slots[:8], "sched": [rng.randrange(1 << 30), rng.choice([0, 20, 100, 300, 1000, 1000])],
                       "where": rng.choice(["new", "new", "new", "there", "slash"]), "extra": rng.random() < 0.3, "plan": None, "inputs": rng.random() < 0.2, "scale": rng.choice([0, 1, 3, None])}
                if stop():
                    return

    def attack(self, rng):
        k = rng.random()
        at = rng.choice([rng.randint(0, 12), rng.randint(0, 60)])
        if k < 0.6:
            return [[at, 0, "", 0, A_CRASH, rng.choice([0, 0, 1, 8, 15, rng.randint(0, 200)]), 0, 1]]
        if k < 0.75:      # in the middle of a write
            return [[-1, KLASS["write"], "", rng.randint(0, 8), A_CRASH, rng.choice([1, 7, 8, 9, 15, 16, rng.randint(1, 300)]), 0, 1]]
        kind = rng.choice(["write", "create", "mkdir", "close", "stat", "open", "read"])
        if k < 0.9:
            return [[-1, KLASS[kind], "", rng.randint(0, 6), A_ERRNO, 0, rng.choice(ERRS[kind]), rng.choice([1, 1, 0])]]
        return [[-1, KLASS["write"], "", rng.randint(0, 6), A_TORN, rng.randint(1, 40), 28, 1]]

    # ---------------------------------------------------------------- execution
    def invocation(self, schema, arch, slot, vals, path, root, sfile, tag, argname):
        """the body of one process"""
        if slot["how"] == "cli":
            n = slot["set"][0]
            jf = "%s/in/%s.json" % (root, tag)
            argv = ["flatdata-writer", "-p", path, "-s", sfile, "-r", n, "-d", jf] + (["-a", arch.name] if argname else [])

            def run():
                from flatdata.lib import writer
                sys.argv = argv
                writer.main()
        else:
            def run():
                from flatdata.lib.flatdata_writer import Writer
                with open(sfile) as f:
                    text = f.read()
                w = Writer(text, path, arch.name)
                for n in slot["set"]:
                    w.set(n, pylib.to_py(schema, arch.res(n), vals[n]))
                w.finish()
        return run

    def execute(self, sc):
        root = os.path.join(common.scratch(), "m%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root + "/in")
        try:
            return self.execute_in(sc, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def text(self, schema, extra):
        return schema.text() + ("\nnamespace elsewhere { archive OtherArchive { x : raw_data; } }\n" if extra else "")

    def execute_in(self, sc, root):
        schema = pylib.schema_by_id(sc["schema"])
        arch = schema.root()
        nv = 1 + max([p["v"] for s in sc["slots"] for p in s["phases"]] + [0])
        vers = [pylib.values(schema, arch, "%s/v%d" % (sc["values"], v), sc["scale"]) for v in range(nv)]
        good = [pylib.expected_files(schema, arch, v) for v in vers]
        sfile = root + "/in/schema.flatdata"
        with open(sfile, "w") as f:
            f.write(self.text(schema, sc["extra"]))
        path = root + "/out"
        if sc["where"] == "there":
            os.mkdir(path)
        given = path + "/" if sc["where"] == "slash" else path
        slots, state = sc["slots"], {}

        def attempts(i, s):
            for ph in s["phases"]:
                fn = self.invocation(schema, arch, s, vers[ph["v"]], given, root, sfile, "%d_%d" % (i, ph["v"]), sc["extra"] or schema.text().count("archive") != 1)
                todo = list(ph["tries"])
                clean = 0
                while True:
                    state[i] = ("running", ph["v"])
                    rules = todo.pop(0) if todo else ph["last"]
                    hostile = any(r[4] != A_SHORT and r[6] != 4 for r in rules)
                    res, faults = yield (fn, rules)
                    if res == "ok":
                        break
                    if not any(f.split(":")[-1] not in ("short", "errno=4") for f in faults):
                        raise Violation("spurious-failure: writing %s fails with '%s' although nothing went wrong in this process" % (s["set"], res))
                    clean += 1
                    if clean > 30:
                        break
            state[i] = (state[i][0], state[i][1])
        for i, s in enumerate(slots):
            for ph in s["phases"]:
                if s["how"] == "cli":
                    with open("%s/in/%d_%d.json" % (root, i, ph["v"]), "w") as f:
                        json.dump(pylib.to_py(schema, arch.res(s["set"][0]), vers[ph["v"]][s["set"][0]]), f)
        w = World(root if sc.get("inputs") else path, sc["sched"][0], sc["sched"][1], sc["plan"],
                  max_steps=(20000 + 4 * sum(len(b) for g in good for b in g.values())) * (1 + len(slots)))

        def intact(i, when):
            v = state[i][1]
            for n in slots[i]["set"]:
                r = arch.res(n)
                for f in pylib.res_files(n, r.kind):
                    p = os.path.join(path, f)
                    b = open(p, "rb").read() if os.path.isfile(p) else None
                    if b != good[v][f]:
                        raise Violation("lost-resource: %s: %s of %s (%s) is %s" % (when, f, n, r.kind, "missing" if b is None else "different (%d bytes instead of %d)" % (len(b), len(good[v][f]))))

        def on_end(i, res, running):
            state[i] = (res, state[i][1])
            if res == "ok":
                intact(i, "its invocation has reported success")
            for j in state:
                if j != i and j not in running and state[j][0] == "ok":
                    intact(j, "it was stored before another invocation ended")
        verdict = None
        try:
            how = w.run([attempts(i, s) for i, s in enumerate(slots)], on_end)
            if how == "steps":
                raise Violation("no-progress: the invocations do not end")
            # all have succeeded
            files = pylib.read_dir(path) if os.path.isdir(path) else {}
            want = {f: b for f, b in good[0].items() if f.startswith(arch.name + ".archive")} if slots else {}
            final = {}
            for i, s in enumerate(slots):
                for n in s["set"]:
                    final[n] = vers[state[i][1]][n]
                    for f in pylib.res_files(n, arch.res(n).kind):
                        want[f] = good[state[i][1]][f]
            for f in sorted(set(want) | set(files)):
                if files.get(f) != want.get(f):
                    raise Violation("not-converged: at the end %s %s" % (f, "is missing" if f not in files else "does not belong to the archive" if f not in want else "differs from the one a single process writes"))
            if slots and all(r.optional or r.name in final for r in arch.resources):
                self.read_back(schema, arch, final, path)
        except Violation as v:
            verdict = str(v)
        self.last_plan = list(w.picked)
        multi = w.switches > 0 and len(slots) > 1
        nontriv = bool(w.kinds or multi)
        stats = {"ops": w.nops, "faults": dict(w.kinds), "seeds": 1, "processes": w.attempts, "context_switches": w.switches}
        if verdict:
            return Result(violation=verdict, key="violation", nontrivial=nontriv, trace=w.trace, stats=stats)
        shared = [t for t in w.trace if ".archive" in t or "mkdir" in t or " ends" in t]
        import hashlib
        key = hashlib.sha1(("%s|%s" % (sc["schema"], shared)).encode()).hexdigest()[:16] if nontriv else "trivial"
        return Result(key=key, nontrivial=nontriv, trace=w.trace, stats=stats)

    def read_back(self, schema, arch, final, path):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        try:
            a = pylib.cls(schema, arch.name)(FileResourceStorage(path))
        except Exception as e:
            raise Violation("not-converged: the archive does not open: %s: %s" % (type(e).__name__, str(e)[:200]))
        for r in arch.resources:
            if r.name in final:
                x = getattr(a, r.name)
                if x is None or pylib.read_res(schema, r, x) != pylib.norm(r, final[r.name]):
                    raise Violation("not-converged: %s reads back other values" % r.name)

    def shrinks(self, sc):
        if sc["plan"] is None:
            self.execute(sc)
            yield dict(sc, plan=self.last_plan)
            yield dict(sc, sched=[0, 0])
        for i, s in enumerate(sc["slots"]):
            def put(t):
                return dict(sc, slots=sc["slots"][:i] + [t] + sc["slots"][i + 1:])
            for j in range(len(s["phases"])):
                if len(s["phases"]) > 1:
                    yield put(dict(s, phases=s["phases"][:j] + s["phases"][j + 1:]))
                for k in range(len(s["phases"][j]["tries"])):
                    ph = dict(s["phases"][j], tries=s["phases"][j]["tries"][:k] + s["phases"][j]["tries"][k + 1:])
                    yield put(dict(s, phases=s["phases"][:j] + [ph] + s["phases"][j + 1:]))
            for n in s["set"] if len(s["set"]) > 1 else ():
                yield put(dict(s, set=[x for x in s["set"] if x != n]))
        if sc["scale"] != 0:
            yield dict(sc, scale=0)
        if sc.get("inputs"):
            yield dict(sc, inputs=False)
        if sc["extra"]:
            yield dict(sc, extra=False)


def _warm(sid):
    pylib.rendered(pylib.schema_by_id(sid))
