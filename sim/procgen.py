"""P14: the generator command under faults, kills and concurrent runs."""
import gc
import hashlib
import os
import random
import shutil
import sys

from . import common, pylib, simlib
from .common import Check, Result, Violation
from .procs import World
from .procwrite import memo_ast
from .py_write import ERRS
from .simlib import A_CRASH, A_ERRNO, A_SHORT, A_TORN, KLASS

TARGETS = ["cpp", "py", "go", "rust", "dot", "flatdata"]
# broken schemas: must be refused
INVALID = [
    "namespace a { struct S { x : u32 : 7; }",
    "namespace a { struct S { x : u32 : 7 } }",
    "namespace a { strukt S { x : u32 : 7; } }",
    "struct S { x : u32 : 7; }",
    "namespace a { archive A { v : vector< Missing >; } }",
    "namespace a { struct S { x : u8 : 9; } }",
    "namespace a { struct S { x : u8; } struct S { y : u8; } }",
    "namespace a { struct S { x : u8; x : u16; } }",
    "namespace a { archive A { r : raw_data; r : raw_data; } }",
    "namespace a { enum E : u8 { A = 1, B = 1, } }",
    "namespace a { enum E : u8 : 2 { A = 9, } }",
    "namespace a { const u8 C = 256; }",
    "namespace a { archive A { s : archive A2; } }",
    "namespace a { struct S { x : u8; } archive A { @explicit_reference( S.y, v ) v : vector< S >; } }",
    "namespace a { struct S { x : u8; } archive A { v : vector< S > } }",
    "namespace a { struct S { x : u8; } } garbage",
    "namespace a { struct S { @range(x) a : u32; x : u8; } }",
    "namespace { struct S { x : u8; } }",
    "namespace a { archive A { m : multivector< 33 >; } }",
    "\x00",
    b"namespace a { struct S { x : u8; } } // \xff\xfe".decode("latin1"),
]
SIMPLE = ["namespace a { struct S { x : u32 : 7; } }", "namespace n.m { /** caf\u00e9 \u2603 */ struct S { x : u32 : 7; y : i64; } archive A { v : vector< S >; @optional r : raw_data; } }",
          "namespace a {\r\n  // carriage returns\r\n  struct S {\r\n x : u8; }\r\n archive A { s : S; }\r\n}\r\n"]


class P14(Check):
    prop = "P14"
    preload = True
    isolate = False
    reducible = ("slots", "plan")
    rule = ("one run = one to four slots, each a sequence of runs of the real generator command with its own output file, as forked processes on a simulated disk that a seeded scheduler interleaves call by call; "
            "schemas valid and not, every target, outputs that exist already (older, longer, torn), missing output directories; runs are killed at a chosen call or byte of a write or hit by errors and repeated; "
            "non-trivial = an interleaving of several processes, a kill, a fault, an input that must be refused or a left-over output")
    measure = "distinct (schema, target, left-overs, faults, order of calls on shared paths, results of the runs)"
    real = ("flatdata-generator: app.main, Engine (current tree; parsing of valid schemas and rendering happen once per text and target)", "CPython io, argparse, logging")
    stub = ("kernel file system calls below the scratch directory (libc interposition; real tmpfs behind it)", "process start: fork of an interpreter with the generator loaded")
    assumptions = ("process-kill model: what write() accepted survives the process",)

    def prepare(self):
        import multiprocessing as mp
        n = 4 if self.tier == "quick" else 24
        rng = random.Random("p14/%d" % self.seed)
        texts = list(SIMPLE) + [pylib.schema_by_id(["rnd", self.seed * 1000 + i, i % 2]).text() for i in range(n)]
        d = os.path.join(common.REPO, "test_cases")
        real = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(".flatdata")) + [os.path.join(common.REPO, "examples", "coappearances", "coappearances.flatdata")]
        for p in rng.sample(real, 5 if self.tier == "quick" else len(real)):
            with open(p, newline="") as f:
                texts.append(f.read())
        jobs = [(t, g) for t in texts for g in (TARGETS if self.tier != "quick" else rng.sample(TARGETS, 3))]
        with mp.Pool(common.NCPU) as p:
            got = p.map(_reference, jobs, chunksize=1)
        # what the engine itself refuses (an unsupported feature) is an input the tool must refuse
        self.valid = [(t, g) for (t, g), r in zip(jobs, got) if r]
        self.refused = [(t, g) for (t, g), r in zip(jobs, got) if not r]
        import flatdata.generator.app  # noqa
        import flatdata.generator.engine as eng
        pylib.memo_engine()
        memo_ast()
        self.ref = {}
        for t, g in self.valid:
            self.ref[(t, g)] = eng.Engine(t.replace("\r\n", "\n")).render(g).encode()
        gc.collect()
        gc.freeze()

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p14/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            slots = []
            for j in range(rng.choice([1, 1, 2, 2, 3, 4])):
                phases = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    k = rng.random()
                    if k < 0.7:
                        t, g = rng.choice(self.valid)
                        ph = {"kind": "valid", "text": t, "gen": g}
                    elif k < 0.8:
                        ph = {"kind": "invalid", "text": rng.choice(INVALID), "gen": rng.choice(TARGETS)}
                    elif k < 0.84 and self.refused:
                        t, g = rng.choice(self.refused)
                        ph = {"kind": "invalid", "text": t, "gen": g}
                    elif k < 0.9:
                        ph = {"kind": "target", "text": rng.choice(self.valid)[0], "gen": rng.choice(["java", "CPP", "", "python", "py "])}
                    elif k < 0.96:
                        ph = {"kind": rng.choice(["missing", "isdir"]), "text": rng.choice(self.valid)[0], "gen": rng.choice(TARGETS)}
                    else:
                        ph = {"kind": "badout", "text": rng.choice(self.valid)[0], "gen": "flatdata"}
                    ph["tries"] = [self.attack(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))] if ph["kind"] == "valid" else [self.attack(rng) for _ in range(rng.choice([0, 0, 1]))]
                    ph["last"] = [[-1, KLASS["write"] | KLASS["read"], "", rng.randint(0, 3), A_SHORT] + rng.choice([[1, 0, 1], [7, 0, 5], [100, 0, 0]])] if rng.random() < 0.2 else []
                    phases.append(ph)
                slots.append({"phases": phases, "left": rng.choice(["none", "none", "old", "long", "empty"]), "dir": rng.choice(["", "", "g", "g/h", "g/h/i"]), "form": rng.choice(["abs", "abs", "abs", "rel"]) if rng.random() < 0.3 else "abs",
                              "opts": rng.choice([[], [], ["-v"], ["--debug"]])})
            yield {"slots": slots, "seed": seed, "sched": [rng.randrange(1 << 30), rng.choice([0, 100, 300, 1000, 1000])], "plan": None}
            if stop():
                return

    def attack(self, rng):
        k = rng.random()
        at = rng.randint(0, 16)
        if k < 0.4:
            return [[at, 0, "", 0, A_CRASH, rng.choice([0, 1, 100, rng.randint(0, 9000)]), 0, 1]]
        if k < 0.55:
            return [[-1, KLASS["write"], "", rng.randint(0, 2), A_CRASH, rng.choice([1, 4096, rng.randint(1, 20000)]), 0, 1]]
        kind = rng.choice(["write", "write", "create", "mkdir", "close", "stat", "open", "read", "seek"])
        if k < 0.9:
            return [[-1, KLASS[kind], rng.choice(["", "", "schema"]) if kind in ("stat", "open", "read", "close") else "", rng.randint(0, 3), A_ERRNO, 0, rng.choice(ERRS[kind]), rng.choice([1, 1, 0])]]
        return [[-1, KLASS["write"], "", rng.randint(0, 2), A_TORN, rng.randint(1, 4000), 28, 1]]

    def execute(self, sc):
        root = os.path.join(common.scratch(), "g%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root + "/in")
        try:
            return self.execute_in(sc, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def reference(self, text, gen):
        if (text, gen) not in self.ref:
            import flatdata.generator.engine as eng
            self.ref[(text, gen)] = eng.Engine(text.replace("\r\n", "\n")).render(gen).encode()
        return self.ref[(text, gen)]

    def execute_in(self, sc, root):
        slots = sc["slots"]
        state, outs = {}, {}
        os.mkdir(root + "/out")
        for i, s in enumerate(slots):
            d = os.path.join(root, "out", s["dir"]) if s["dir"] else root + "/out"
            outs[i] = d + "/o%d.txt" % i
            state[i] = None
            if s["left"] != "none":
                os.makedirs(d, exist_ok=True)
                state[i] = {"old": b"// what an older run wrote\n" * 20, "long": b"x" * 300000, "empty": b""}[s["left"]]
                with open(outs[i], "wb") as f:
                    f.write(state[i])
            for j, ph in enumerate(s["phases"]):
                p = "%s/in/schema%d_%d" % (root, i, j)
                if ph["kind"] == "isdir":
                    os.mkdir(p)
                elif ph["kind"] != "missing":
                    with open(p, "wb") as f:
                        f.write(ph["text"].encode("latin1") if ph["text"].endswith("\xff\xfe") else ph["text"].encode())

        def content(i):
            if not os.path.lexists(outs[i]):
                return None
            with open(outs[i], "rb") as f:
                return f.read()

        def body(i, j):
            ph, s = slots[i]["phases"][j], slots[i]
            out, sch = outs[i], "%s/in/schema%d_%d" % (root, i, j)
            if ph["kind"] == "badout":
                out = sch + "/below.txt"          # the parent is a regular file
            cwd = None
            if s["form"] == "rel":
                cwd, out, sch = root, os.path.relpath(out, root), os.path.relpath(sch, root)
            argv = ["flatdata-generator", "-s", sch, "-g", ph["gen"], "-O", out] + s["opts"]

            def run():
                import logging
                from flatdata.generator import app
                logging.root.handlers.clear()
                if cwd:
                    os.chdir(cwd)
                sys.argv = argv
                return app.main()
            return run
        now = {}

        def attempts(i, s):
            for j, ph in enumerate(s["phases"]):
                todo, n = list(ph["tries"]), 0
                while True:
                    rules = todo.pop(0) if todo else ph["last"]
                    clean = not todo and rules is ph["last"]
                    now[i] = j
                    res, faults = yield (body(i, j), rules)
                    hard = [f for f in faults if f.split(":")[-1] not in ("short", "errno=4")]
                    if ph["kind"] != "valid":
                        if res == "ok":
                            raise Violation("bad-input-accepted: the command exits successfully for %s" % describe(ph))
                        if clean or not todo:
                            break
                        continue
                    if res == "ok":
                        break
                    if not hard:
                        raise Violation("spurious-failure: %s fails with '%s' although nothing went wrong in this process" % (describe(ph), res))
                    n += 1
                    if n > 20:
                        raise Violation("harness: too many attempts")
        w = World(root, sc["sched"][0], sc["sched"][1], sc["plan"], max_steps=200000)

        def on_end(i, res, running):
            ph = slots[i]["phases"][now[i]]
            got = content(i)
            if res == "ok" and ph["kind"] == "valid":
                want = self.reference(ph["text"], ph["gen"])
                if got != want:
                    raise Violation("incomplete-output: %s exits successfully, its output %s" % (describe(ph), "is missing" if got is None else "has %d bytes instead of %d" % (len(got), len(want))))
                state[i] = got
            elif ph["kind"] != "valid":
                if state[i] is not Ellipsis and got != state[i]:
                    raise Violation("output-touched: %s fails with '%s' and has %s the output file" % (describe(ph), res, "created" if state[i] is None else "removed" if got is None else "changed"))
            else:
                hit = w.last_faults
                if hit and all(":schema" in f for f in hit) and not res.startswith("killed"):
                    if state[i] is not Ellipsis and got != state[i]:
                        raise Violation("output-touched: the schema cannot be read (%s), and the output file has changed" % hit)
                else:
                    state[i] = Ellipsis
            for j in state:
                if j != i and j not in running and state[j] is not Ellipsis and content(j) != state[j]:
                    raise Violation("output-touched: the output of another run has changed")
        verdict = None
        try:
            how = w.run([attempts(i, s) for i, s in enumerate(slots)], on_end)
            if how == "steps":
                raise Violation("no-progress: the runs do not end")
        except Violation as v:
            verdict = str(v)
        self.last_plan = list(w.picked)
        nontriv = bool(w.kinds or (w.switches and len(slots) > 1) or any(p["kind"] != "valid" for s in slots for p in s["phases"]) or any(s["left"] != "none" for s in slots))
        stats = {"ops": w.nops, "faults": dict(w.kinds), "seeds": 1, "processes": w.attempts, "context_switches": w.switches}
        if verdict:
            return Result(violation=verdict, key="violation", nontrivial=nontriv, trace=w.trace, stats=stats)
        shape = [(s["left"], s["dir"], s["form"], [(p["kind"], hashlib.sha1(p["text"].encode()).hexdigest()[:6], p["gen"]) for p in s["phases"]]) for s in slots]
        shared = [t for t in w.trace if "mkdir" in t or "create" in t or " ends" in t]
        key = hashlib.sha1(("%s|%s" % (shape, shared)).encode()).hexdigest()[:16] if nontriv else "trivial"
        return Result(key=key, nontrivial=nontriv, trace=w.trace, stats=stats)

    def shrinks(self, sc):
        if sc["plan"] is None:
            self.execute(sc)
            yield dict(sc, plan=self.last_plan)
            yield dict(sc, sched=[0, 0])
        for i, s in enumerate(sc["slots"]):
            def put(t):
                return dict(sc, slots=sc["slots"][:i] + [t] + sc["slots"][i + 1:])
            for j, ph in enumerate(s["phases"]):
                def puth(h):
                    return put(dict(s, phases=s["phases"][:j] + [h] + s["phases"][j + 1:]))
                if len(s["phases"]) > 1:
                    yield put(dict(s, phases=s["phases"][:j] + s["phases"][j + 1:]))
                for k in range(len(ph["tries"])):
                    yield puth(dict(ph, tries=ph["tries"][:k] + ph["tries"][k + 1:]))
                if ph["last"]:
                    yield puth(dict(ph, last=[]))
                if ph["kind"] == "valid" and (ph["text"], ph["gen"]) != (SIMPLE[0], "flatdata"):
                    yield puth(dict(ph, text=SIMPLE[0], gen="flatdata"))
            for f, v in (("left", "none"), ("dir", ""), ("form", "abs"), ("opts", [])):
                if s[f] != v:
                    yield put(dict(s, **{f: v}))


def describe(ph):
    return "generating %s from %s" % (ph["gen"] or "(no target)", {"valid": "a valid schema", "invalid": "the broken schema %r" % ph["text"][:80], "target": "a valid schema (unknown target)",
                                                                  "missing": "a missing schema", "isdir": "a directory", "badout": "a valid schema to an impossible place"}[ph["kind"]])


def _reference(job):
    t, g = job
    try:
        pylib.rendered(t.replace("\r\n", "\n"), g)
        return True
    except Exception:
        return False
