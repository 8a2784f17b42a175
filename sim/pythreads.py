"""P32: Python threads reading one archive, opening from one storage and writing archives of their own behave as if each were alone."""
import gc
import hashlib
import os
import random
import shutil
import sys
import threading
import types

from . import diskmodel as dm, pylib, simlib
from .common import Result, Violation
from .cppcheck import values_for
from .py_read import PERRS, err_kind
from .py_write import ERRS
from .pyviews import P22, Seam, Views, rand_slice
from .simlib import A_ERRNO, KLASS

FRESH = "<flatdata classes of this run>"


class Baton:
    """Real threads of which one runs at a time.  It hands over after as many lines (or bytecode instructions) of flatdata as the plan says:
    plan = [[events, which of the others], ...]; afterwards every thread runs to its end in turn."""

    def __init__(self, plan, fine):
        self.plan, self.fine = list(plan), fine
        self.cv = threading.Condition()
        self.cur, self.alive, self.steps, self.trail, self.stalls = None, [], 0, [], 0
        self.left, self.to = self.plan.pop(0) if self.plan else (-1, 0)

    @staticmethod
    def traced(frame):
        f = frame.f_code.co_filename
        return "/flatdata/" in f or f in (FRESH, "<string>")

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "opcode" if self.fine else event == "line":
                self.point(me)
            return local

        def glob(frame, event, arg):
            if not self.traced(frame):
                return None
            if self.fine:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            return local
        return glob

    def point(self, me):
        if self.cur != me:           # was taken for stuck, and goes on
            with self.cv:
                self.turn(me)
        self.steps += 1
        if self.left < 0:
            return
        self.left -= 1
        if self.left > 0:
            return
        to = self.to
        self.left, self.to = self.plan.pop(0) if self.plan else (-1, 0)
        others = [t for t in self.alive if t != me]
        if not others:
            return
        with self.cv:
            self.hand(me, others[to % len(others)])
            self.turn(me)

    def hand(self, me, t):
        self.cur = t
        self.trail.append((self.steps, t))
        self.cv.notify_all()

    def turn(self, me):
        seen = -1
        while self.cur != me:
            if not self.cv.wait(0.4):
                # the running thread waits for something another thread holds: let that one go on
                if seen == self.steps and self.cur in self.alive and len(self.alive) > 1:
                    self.stalls += 1
                    self.hand(me, self.alive[(self.alive.index(self.cur) + 1) % len(self.alive)])
                seen = self.steps

    def run(self, fns):
        died = [None] * len(fns)

        def body(i):
            with self.cv:
                self.turn(i)
            sys.settrace(self.tracer(i))
            try:
                fns[i]()
            except BaseException as e:
                died[i] = e
            finally:
                sys.settrace(None)
                with self.cv:
                    if self.cur != i:
                        self.turn(i)
                    self.alive.remove(i)
                    if self.alive:
                        self.hand(i, self.alive[0])
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(fns))]
        self.alive = list(range(len(fns)))
        for t in ts:
            t.start()
        with self.cv:
            self.cur = 0
            self.cv.notify_all()
        for t in ts:
            t.join()
        return died


class SharedViews(Views):
    """the looks of one thread; what they keep may be looked at again by every thread"""

    def __init__(self, schema, arch, archive, vals, board):
        super().__init__(schema, arch, archive, vals)
        self.board = board

    def keep(self, what, f):
        super().keep(what, f)
        self.board.append((what, f))

    def keep_iter(self, *a):
        board, self.board = self.board, []     # an unfinished iteration belongs to one thread
        try:
            super().keep_iter(*a)
        finally:
            self.board = board


class P32(P22):
    prop = "P32"
    isolate = True
    reducible = ("plan", "rules", "par")
    rule = ("one run = two to four threads of one process under a simulated scheduler that hands over at seeded lines or bytecode instructions of flatdata: they look at one opened archive (directory or TAR file) "
            "and at elements, slices and arrays another thread obtained, open archives from one storage, and write archives of their own, with I/O errors at opening and writing; every look is "
            "compared with the stored values and every written archive with the complete files; non-trivial = at least one switch between threads")
    measure = "distinct schedules: hash of the sequence of (step, thread) switches, together with the workload"
    real = P22.real + ("flatdata-py: ArchiveBuilder, ResourceStorage, FileResourceWriter, TarArchiveResourceStorage (current tree)",)
    stub = P22.stub + ("thread scheduler: threads are real but run one at a time; a trace function hands over at lines or bytecode instructions of flatdata-py and of the generated classes as the run's plan says",)
    assumptions = ("pandas, numpy and the interpreter are not switched inside: only flatdata and the generated classes are",)

    def schema_ids(self):
        n = self.nrandom[self.tier]
        return ["fixed", "pyfixed"] + [["rnd", self.seed * 1000 + i, i % 2] for i in range(n)]

    def prepare(self):
        super().prepare()
        import flatdata.lib.resource_storage  # noqa
        import flatdata.lib.file_resource_writer  # noqa

    def writable(self, sid):
        return sid == "pyfixed" or sid[0] == "rnd" and sid[2] == 1

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p32/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            sid = self.sids[0] if rng.random() < 0.2 else rng.choice(self.sids)
            schema = pylib.schema_by_id(sid)
            arch = schema.root()
            base = dict(schema=sid, values=seed, scale=rng.choice([None, 0, 1, 3, 3, 30]), damage=[])
            paths, tables = self.paths(schema, arch, self.vals(base))
            for k in range(6):
                par = []
                few = [rng.choice(paths) for _ in range(rng.choice([1, 1, 2, 50]))]
                mixed = [x for x in paths if x[1].kind == "multivector" and x[2]]
                if mixed and rng.random() < 0.3:
                    few = [rng.choice(mixed)]
                wr = self.writable(sid) and rng.random() < 0.6
                for t in range(rng.choice([2, 2, 3, 4])):
                    ops = [[rng.choice(["open", "shared", "shared"]), rng.randrange(2)]] if rng.random() < 0.6 else []
                    for _ in range(rng.choice([1, 2, 4, 8])):
                        x = rng.random()
                        if wr and x < 0.3:
                            ops.append(["write", rng.randrange(1000)])
                        elif x < 0.4:
                            ops.append([rng.choice(["open", "shared", "again", "again", "gc"]), rng.randrange(1000)])
                        elif x < 0.48:
                            ops.append(["archive", rng.choice(tables)])
                        else:
                            p, r, n = rng.choice(few)
                            what = rng.choice(["all", "index", "index", "iter", "column", "slice", "slice", "numpy", "frame", "slicecolumn", "show"])
                            a = rng.choice([0, -1, n, -n, n - 1, rng.randint(-n - 2, n + 2)]) if what == "index" else rng.choice([0, 1, 2, n, n + 1, rng.randint(0, 200)])
                            ops.append(["look", [what, p, a, rand_slice(rng, n)]])
                    par.append(ops)
                fine = rng.random() < 0.4
                scale = rng.choice([2, 5, 20, 100, 500, 2000]) * (5 if fine else 1)
                plan = [[rng.choice([1, rng.randint(1, scale), rng.randint(1, 4 * scale)]), rng.randrange(6)] for _ in range(rng.choice([1, 2, 2, 4, 4, 10, 40, 200]))]
                if rng.random() < 0.25:      # all the time
                    plan = [[rng.choice([1, 1, 2, 3, scale // 2 + 1, rng.randint(1, scale)]), rng.randrange(6)] for _ in range(rng.choice([100, 400, 1000]))]
                rules = []
                if rng.random() < 0.25:
                    e = rng.choice(["stat", "open", "mmap", "create", "write", "close"])
                    errs = PERRS.get(e) or ERRS.get(e)
                    rules.append([-1, KLASS[e], "", rng.randint(0, 30), A_ERRNO, 0, rng.choice(errs), rng.choice([1, 1, 3])])
                yield dict(base, par=par, plan=plan, fine=fine, rules=rules, tar=rng.random() < 0.35, npseed=rng.randint(0, 1 << 30), fresh=rng.random() < 0.5)
                if stop():
                    return

    def shrinks(self, sc):
        for t, ops in enumerate(sc["par"]):
            for k in range(len(ops)):
                yield dict(sc, par=[o if u != t else o[:k] + o[k + 1:] for u, o in enumerate(sc["par"])])
        if sc["fine"] is False and sc["fresh"]:
            yield dict(sc, fresh=False)

    def build(self, schema, arch, sc, op, where, classes):
        from flatdata.lib.resource_storage import ResourceStorage
        from flatdata.lib.file_resource_writer import FileResourceWriter
        vals = values_for(schema, arch, "%s/%s/%d" % (sc["values"], os.path.basename(where), op[1]), random.Random(op[1]), scale=sc["scale"])
        vals = {n: v for n, v in vals.items() if arch.res(n).kind != "archive"}
        b = classes(arch.name, True)(ResourceStorage(FileResourceWriter(), where))
        for n in sorted(vals):
            b.set(n, pylib.to_py(schema, arch.res(n), vals[n]))
        b.finish()
        want = pylib.expected_files(schema, arch, vals)
        d = [x for x, _, f in os.walk(where) if arch.name + ".archive" in f]
        got = pylib.read_dir(d[0]) if d else {}
        for n in sorted(set(want) | set(got)):
            if want.get(n) != got.get(n):
                raise Violation("wrong-file: %s of the archive this thread wrote is %s" % (n, "missing" if n not in got else "too much" if n not in want else "not what was set"))

    def execute(self, sc):
        import flatdata.lib.resources as lib
        schema = pylib.schema_by_id(sc["schema"])
        arch = schema.root()
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        vals = self.vals(sc)
        files = dm.archive_files(schema, arch, vals)
        os.makedirs(root)
        if sc["tar"]:
            from .snapshot import plain_tar
            plain_tar(os.path.join(root, "a.tar"), files, dm.dirs_of(files))
        else:
            dm.write_tree(os.path.join(root, "a"), files, dm.dirs_of(files))
        mod = pylib.module(schema)
        if sc["fresh"]:       # classes that were never used, as the first threads of a process find them
            mod = types.ModuleType(schema.ns)
            exec(compile(pylib.rendered(schema), FRESH, "exec"), mod.__dict__)

        def classes(name, builder=False):
            return getattr(mod, "%s_%s%s" % (schema.ns.replace(".", "_"), name, "Builder" if builder else ""))

        def storage():
            from flatdata.lib.file_resource_storage import FileResourceStorage
            from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
            return TarArchiveResourceStorage.create(os.path.join(root, "a.tar")) if sc["tar"] else FileResourceStorage(os.path.join(root, "a"))
        np = lib.np
        lib.np = Seam(np, sc["npseed"])
        gc.disable()           # (in the child this run has of its own) collected when the history says so
        board, trace, wrong = [], [], []
        try:
            store = storage()
            shared = classes(arch.name)(store)
        except Exception as e:
            return Result(violation="unreadable: opening raised %s: %s" % (type(e).__name__, str(e)[:200]), key="violation", nontrivial=True)

        def attempt(what, f):
            for k in range(8):
                try:
                    return f(k)
                except Exception as e:
                    if isinstance(e, Violation) or not sc["rules"] or not (isinstance(e, OSError) or err_kind(e)):
                        raise
                    trace.append("%s: %s" % (what, type(e).__name__))
            raise Violation("no-progress: %s still fails after the errors stopped" % what)

        def thread(t, ops):
            v = SharedViews(schema, arch, shared, vals, board)
            for k, op in enumerate(ops):
                try:
                    if op[0] == "open":
                        v.archive = attempt("open", lambda _: classes(arch.name)(store if op[1] % 2 == 0 else storage()))
                    elif op[0] == "shared":
                        v.archive = shared
                    elif op[0] == "gc":
                        gc.collect()
                    elif op[0] == "again":
                        if board:
                            board[op[1] % len(board)][1]()
                    elif op[0] == "write":
                        attempt("write", lambda a: self.build(schema, arch, sc, op, os.path.join(root, "w%d.%d.%d" % (t, k, a)), classes))
                    elif op[0] == "archive":
                        v.run(op)
                    else:
                        v.run(op[1])
                except Exception as e:
                    wrong.append(str(e) if isinstance(e, Violation) else "wrong-view: thread %d: %s raises %s: %s" % (t, op, type(e).__name__, str(e)[:160]))
                    return
        try:
            simlib.begin(root, sc["rules"])
            baton = Baton(sc["plan"], sc["fine"])
            died = [e for e in baton.run([lambda t=t, ops=ops: thread(t, ops) for t, ops in enumerate(sc["par"])]) if e is not None]
            kinds = dict(simlib.kinds())
            nops = simlib.lib().sim_ops()
        finally:
            simlib.end()
            lib.np = np
            shutil.rmtree(root, ignore_errors=True)
        if died:
            wrong.append("wrong-view: a thread died of %s" % type(died[0]).__name__)
        trace += ["step %d: thread %d" % x for x in baton.trail[:60]]
        kinds["thread_switch"] = len(baton.trail)
        if baton.stalls:
            kinds["stalled_thread"] = baton.stalls
        if sc["fresh"]:
            kinds["unused_classes"] = 1
        stats = {"ops": nops + baton.steps, "faults": {k: v for k, v in kinds.items() if v}, "seeds": 1}
        if wrong:
            return Result(violation=wrong[0], key="violation", nontrivial=True, trace=trace, stats=stats)
        nontriv = len(baton.trail) > len(sc["par"]) - 1
        return Result(key=hashlib.sha256((str(sc["schema"]) + str(sc["par"]) + str(baton.trail)).encode()).hexdigest()[:24] if nontriv else "trivial", nontrivial=nontriv, trace=trace, stats=stats)
