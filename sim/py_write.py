"""P03, P04: the Python writer under I/O faults and crashes."""
import gc
import os
import random
import shutil

from . import common, pylib, simlib
from .common import Check, Result, Violation
from .simlib import A_CRASH, A_ERRNO, A_SHORT, A_TORN, KLASS

ENOSPC, EIO, EACCES, EMFILE, EINTR, EDQUOT, EROFS = 28, 5, 13, 24, 4, 122, 30
ERRS = {"create": [ENOSPC, EACCES, EMFILE, EIO], "open": [EACCES, EMFILE, EIO], "write": [ENOSPC, EIO, EDQUOT],
        "close": [EIO, ENOSPC], "mkdir": [ENOSPC, EACCES, EROFS], "stat": [EIO, EACCES], "seek": [EIO], "truncate": [EIO],
        "fsync": [EIO], "unlink": [EACCES], "rename": [EIO, EACCES], "mmap": [12], "read": [EIO], "opendir": [EACCES]}


def damaged_ok(exc):
    from flatdata.lib import errors as e
    return isinstance(exc, (e.CorruptArchiveError, e.SchemaMismatchError))


def bad_value(schema, r, pv, mode):
    """a value the builder cannot store, usually after a part that it can"""
    if r.kind == "raw_data":
        return [None, "text", 7, ["a"]][mode % 4]
    fields = schema.struct(r.types[0]).fields

    def spoil(d):
        d = dict(d)
        k = [f.name for f in fields][mode % len(fields)]
        if mode % 3 == 0:
            del d[k]
        elif mode % 3 == 1:
            d["no_such_field"] = 1
        else:
            d[[f.name for f in fields if f.width > 1][0] if any(f.width > 1 for f in fields) else k] = "text"
            if not any(f.width > 1 for f in fields):
                del d[k]
        return d
    zero = {f.name: 0 for f in fields}
    if r.kind == "instance":
        return spoil(pv)
    if r.kind == "vector":
        if mode % 2 and len(fields) == 1 and fields[0].width == 64:
            # what was accepted before the malformed element looks like a complete file
            k = fields[0].name
            return [{k: 16}, {k: 5}, {k: 6}, {k: 0}, {k: "text"}]
        return list(pv) + [spoil(zero)]
    pre = schema.ns.replace(".", "_") + "_"
    if mode % 4 == 3:
        return list(pv) + [[{"name": pre + "NoSuchStruct", "attributes": zero}]]
    return list(pv) + [[{"name": pre + r.types[0], "attributes": spoil(zero)}]]


def probe(schema, archive, good, path, r_name, kind, optional, probe_dir):
    """Open the archive with only this resource's files as found in `path` and everything else intact.
    Returns ("value", v) | ("absent", None) | ("error", exception)"""
    shutil.rmtree(probe_dir, ignore_errors=True)
    pylib.write_dir(probe_dir, good)
    for f in pylib.res_files(r_name, kind):
        p, q = os.path.join(path, f), os.path.join(probe_dir, f)
        if os.path.exists(q):
            os.unlink(q)
        if os.path.exists(p):
            shutil.copyfile(p, q)
    from flatdata.lib.file_resource_storage import FileResourceStorage
    try:
        a = pylib.cls(schema, archive.name)(FileResourceStorage(probe_dir))
        if r_name == archive.name + ".archive":
            return ("value", None)
        res = getattr(a, r_name)
        if res is None:
            return ("absent", None)
        return ("value", pylib.read_res(schema, archive.res(r_name), res))
    except Exception as e:
        return ("error", e)


def judge_damage(schema, archive, good, path, r, allowed, probe_dir):
    """a resource whose files differ from the complete ones must not be presented with other content"""
    kind, opt, name = (r.kind, r.optional, r.name) if r else ("raw_data", False, archive.name + ".archive")
    what, v = probe(schema, archive, good, path, name, kind, opt, probe_dir)
    if what == "value":
        if r is not None and not any(v == pylib.norm(r, a) for a in allowed):
            raise Violation("wrong-content: resource %s (%s) opens with content that was never written" % (name, kind))
        if r is None:
            sigp = os.path.join(path, name)
            if not os.path.exists(sigp) or os.path.getsize(sigp) < 16:
                raise Violation("wrong-content: archive opens with an incomplete signature")
        return "value"
    if what == "absent":
        if not opt:
            raise Violation("absent-mandatory: mandatory resource %s silently absent" % name)
        return "absent"
    if not damaged_ok(v):
        raise Violation("undocumented-error: damaged resource %s (%s) reported as %s: %s" % (
            name, kind, type(v).__name__, str(v)[:200]))
    return "error"


class PyWriteBase(Check):
    preload = True
    reducible = ("rules", "order", "again")
    real = ("flatdata-py: ArchiveBuilder, ResourceStorage, FileResourceWriter, Archive, resources, data_access",
            "flatdata-generator: Engine and Python templates (current tree)", "CPython 3.12 io module")
    stub = ("kernel file system calls below the scratch directory (libc interposition; real tmpfs behind it)",)
    assumptions = ("process-crash model: what write() accepted survives; the library never calls fsync, so loss of "
                   "already accepted writes (power failure) is outside what it promises",)

    def nschemas(self):
        return 10 if self.tier == "quick" else 120

    def schema_ids(self):
        return ["pyfixed"] + [["rnd", self.seed * 1000 + i, 1] for i in range(self.nschemas())]

    def prepare(self):
        import multiprocessing as mp
        with mp.Pool(common.NCPU) as p:
            p.map(_warm, [(i,) for i in self.schema_ids()])
        import flatdata.lib  # noqa: import pandas etc. before forking
        import flatdata.lib.file_resource_storage
        import flatdata.lib.resource_storage
        import flatdata.lib.file_resource_writer

    def open_builder(self, schema, archive, path):
        from flatdata.lib.resource_storage import ResourceStorage
        from flatdata.lib.file_resource_writer import FileResourceWriter
        return pylib.cls(schema, archive.name, True)(ResourceStorage(FileResourceWriter(), path))

    def ops_of(self, schema, archive, order):
        return [r for r in order]

    def build(self, schema, archive, vals, order, path, on_op, retry_vals=None, clear=None, bad=None, form=0, again=None):
        """Run the builder; on_op(name) after each library call returns True to stop.  Returns acked names and errors."""
        acked, errs = [], []
        lib = simlib.lib()

        def dead():
            return lib.sim_frozen(0)
        b = None
        tries = 2 if retry_vals is not None else 1
        for attempt in range(tries):
            try:
                b = self.open_builder(schema, archive, path)
                if not dead():
                    acked.append(archive.name + ".archive")
                break
            except Exception as e:
                errs.append(("open", type(e).__name__))
                if dead():
                    return acked, errs, b
                if attempt + 1 < tries:
                    clear()
                elif attempt:
                    raise Violation("retry-failed: creating the builder again after the errors stopped raised %s: %s" % (
                        type(e).__name__, str(e)[:200]))
        if b is None:
            return acked, errs, b
        for n in order:
            r = archive.res(n)
            for attempt in range(tries):
                v = (vals if attempt == 0 else retry_vals)[n]
                if dead():
                    return acked, errs, b
                try:
                    pv = pylib.to_py(schema, r, v)
                    if r.kind == "raw_data" and form:
                        pv = (bytearray, memoryview)[form - 1](pv)
                    if bad and n in bad and attempt == 0:
                        pv = bad_value(schema, r, pv, bad[n])
                    b.set(n, pv)
                    if not dead():
                        acked.append((n, attempt))
                    if again and n in again[0] and not dead():
                        self.set_again(schema, r, b, again[1][n])
                    break
                except Exception as e:
                    errs.append((n, type(e).__name__))
                    if dead():
                        return acked, errs, b
                    if attempt + 1 < tries:
                        clear()
                    elif attempt:
                        raise Violation("retry-failed: setting %s (%s) again after the errors stopped raised %s: %s" % (
                            n, r.kind, type(e).__name__, str(e)[:200]))
        try:
            b.finish()
            if not dead():
                acked.append("finish")
        except Exception as e:
            errs.append(("finish", type(e).__name__))
        return acked, errs, b

    def set_again(self, schema, r, b, v):
        """a resource is set once: whatever is asked afterwards, it keeps what was written (the bytes are judged later)"""
        try:
            b.set(r.name, pylib.to_py(schema, r, v))
        except Exception:
            return
        raise Violation("set-twice: setting %s (%s) a second time was not refused" % (r.name, r.kind))

    def profile(self, scenario):
        """operation list of the fault-free run of a workload"""
        sc = dict(scenario, rules=[], cap=-1)
        schema = pylib.schema_by_id(sc["schema"])
        archive = schema.root()
        vals = pylib.values(schema, archive, sc["values"])
        d = os.path.join(common.scratch(), "profile")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        simlib.begin(d)
        self.build(schema, archive, vals, sc["order"], os.path.join(d, "a"), None)
        simlib.end()
        return simlib.log()

    def workloads(self, worker, nworkers):
        ids = self.schema_ids()
        k = worker
        rng = random.Random("wl/%d/%d" % (self.seed, worker))
        i = 0
        while True:
            sid = ids[0] if i == 0 and worker < 2 else ids[(worker + i * nworkers) % len(ids)]
            schema = pylib.schema_by_id(sid)
            names = [r.name for r in schema.root().resources if r.kind != "archive"]
            rng.shuffle(names)
            yield {"schema": sid, "values": "%d.%d.%d" % (self.seed, worker, i), "order": names, "rules": [], "cap": -1}
            i += 1

    def execute(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        archive = schema.root()
        vals = pylib.values(schema, archive, sc["values"])
        alt = pylib.values(schema, archive, sc["values"] + "/alt") if sc.get("retry") else None
        root = os.path.join(common.scratch(), "r%d" % os.getpid())
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        try:
            return self.execute_in(sc, schema, archive, vals, alt, root)
        finally:
            simlib.end()
            shutil.rmtree(root, ignore_errors=True)

    def execute_in(self, sc, schema, archive, vals, alt, root):
        path = os.path.join(root, "d", "a")
        os.makedirs(os.path.join(root, "d"))
        lib = simlib.lib()
        old = None
        if sc.get("old"):
            old = pylib.values(schema, archive, sc["values"] + "/old")
            before = pylib.expected_files(schema, archive, old)
            if sc["old"] == "other":
                # an archive of another version of the schema
                before = {f: b + b"\n" if f.endswith(".schema") else b for f, b in before.items()}
                old = None
            pylib.write_dir(path, before)
        simlib.begin(os.path.join(root, "d"), sc["rules"], sc["cap"])
        bad = sc.get("bad") or {}
        try:
            acked, errs, b = self.build(schema, archive, vals, sc["order"], path, None, alt, lib.sim_clear_rules, bad,
                                        sc.get("form", 0), (sc["again"], pylib.values(schema, archive, sc["values"] + "/again")) if sc.get("again") else None)
        except Violation as v:
            simlib.end()
            return Result(violation=str(v), key="violation", trace=simlib.log(), stats={"seeds": 1})
        crashed = bool(lib.sim_frozen(0))
        if sc.get("keep"):       # the program keeps the builder while it looks at the result
            pass
        else:
            b = None
            gc.collect()
        lib.sim_clear_rules()
        simlib.end()
        log = simlib.log()
        kinds = simlib.kinds()
        hard = any(k not in ("short_write", "interrupted_call") for k in kinds) and not all(
            e[6] in ("", "short") or e[6] == "errno=4" for e in log)
        trace = ["%d %s %s %d -> %d %s" % (e[0], e[2], e[3], e[4], e[5], e[6]) for e in log]
        sig = sorted("%s/%s" % (e[2], e[6].split("@")[0]) for e in log if e[6])
        where = sorted(e[3].split("/")[-1] + ":" + e[2] for e in log if e[6])
        stats = {"ops": lib.sim_ops(), "faults": kinds, "seeds": 1, "acked": len(acked), "errors": len(errs)}
        nontrivial = bool(kinds or bad)
        outcome = []
        try:
            if not hard and not crashed and not bad and errs:
                raise Violation("spurious-failure: %s although nothing but short writes and interrupted calls happened" % errs)
            good = pylib.expected_files(schema, archive, vals)
            files = pylib.read_dir(path) if os.path.isdir(path) else {}
            extra = set(files) - set(good)
            ack = {a[0] if isinstance(a, tuple) else a: (a[1] if isinstance(a, tuple) else 0) for a in acked}
            probe_dir = os.path.join(root, "probe")
            all_same = True
            for r in [None] + [x for x in archive.resources if x.name in sc["order"]]:
                name = r.name if r else archive.name + ".archive"
                kind = r.kind if r else "raw_data"
                attempt = ack.get(name)
                if name in bad and attempt == 0:
                    raise Violation("bad-value-accepted: setting %s to a malformed value (%s) reported success" % (name, bad[name]))
                want = good
                if attempt == 1:
                    want = pylib.expected_files(schema, archive, dict(vals, **{name: alt[name]}))
                same = all(files.get(f) == want.get(f) for f in pylib.res_files(name, kind))
                if attempt is not None and not same:
                    bad = [f for f in pylib.res_files(name, kind) if files.get(f) != want.get(f)]
                    raise Violation("lost-ack: %s was reported as written but %s is %s" % (
                        name, bad[0], "missing" if bad[0] not in files else "different (%d bytes, expected %d)" % (
                            len(files[bad[0]]), len(want[bad[0]]))))
                if not same:
                    all_same = False
                    allowed = [] if r is None else ([] if name in bad else [vals[name]]) + ([alt[name]] if alt else []) + ([old[name]] if old else [])
                    outcome.append(name[-8:] + judge_damage(schema, archive, good, path, r, allowed, probe_dir))
                elif attempt == 1:
                    what, v = probe(schema, archive, good, path, name, kind, r.optional, probe_dir)
                    if what != "value" or v != pylib.norm(r, alt[name]):
                        raise Violation("unreadable-ack: %s was written but reads back as %s" % (name, (what, str(v)[:200])))
            if all_same and not extra and len(sc["order"]) == len(vals) and not alt:
                self.check_open(schema, archive, vals, path)
                outcome.append("complete")
            if crashed and sc.get("rerun"):
                simlib.begin(os.path.join(root, "d"))
                acked2, errs2, b2 = self.build(schema, archive, vals, sc["order"], path, None)
                b2 = None
                simlib.end()
                if errs2:
                    raise Violation("rerun-failed: writing again after the crash failed: %s" % errs2)
                files = pylib.read_dir(path)
                for f, c in good.items():
                    if f.split(".")[0].replace("_index", "") in sc["order"] or f.startswith(archive.name + "."):
                        if files.get(f) != c and len(sc["order"]) == len(vals):
                            raise Violation("rerun-incomplete: after the rerun %s is wrong" % f)
                if len(sc["order"]) == len(vals):
                    self.check_open(schema, archive, vals, path)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=nontrivial, trace=trace, stats=stats)
        key = "%s|%s|%s|%s" % (",".join(sig), ",".join(where), ",".join(outcome), len(errs)) if nontrivial else "trivial"
        return Result(key=key, nontrivial=nontrivial, trace=trace, stats=stats)

    def check_open(self, schema, archive, vals, path):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        try:
            a = pylib.cls(schema, archive.name)(FileResourceStorage(path))
        except Exception as e:
            raise Violation("unreadable-ack: completely written archive does not open: %s: %s" % (type(e).__name__, str(e)[:300]))
        for r in archive.resources:
            if r.kind == "archive":
                continue
            if getattr(a, r.name) is None:
                raise Violation("wrong-content: %s (%s) was written but reads back as absent" % (r.name, r.kind))
            got = pylib.read_res(schema, r, getattr(a, r.name))
            if got != pylib.norm(r, vals[r.name]):
                raise Violation("wrong-content: %s (%s) reads back different values" % (r.name, r.kind))

    def shrinks(self, sc):
        if sc.get("retry"):
            yield dict(sc, retry=False)
        if sc.get("cap", -1) >= 0:
            yield dict(sc, cap=-1)
        if sc.get("rerun"):
            yield dict(sc, rerun=False)
        if sc.get("old"):
            yield dict(sc, old=None)
        for n in sc.get("bad") or {}:
            yield dict(sc, bad={a: b for a, b in sc["bad"].items() if a != n})


def _warm(a):
    pylib.rendered(pylib.schema_by_id(a[0]))


class P03(PyWriteBase):
    prop = "P03"
    level = "exploration"
    rule = ("one run = one workload (schema, values, order of set calls) executed by the real Python builder over the simulated "
            "disk with a fault plan: every single operation of a workload with each error kind, then random plans of several faults, "
            "full disks of every size class, short writes, retries with other values; non-trivial = at least one fault fired")
    measure = "distinct (fault kinds, operations and files hit, outcome per damaged resource, number of errors raised)"

    def scenarios(self, worker, nworkers, stop):
        for wl in self.workloads(worker, nworkers):
            rng = random.Random("p03/%s" % wl["values"])
            yield wl
            yield dict(wl, again=list(wl["order"]))
            ops = self.profile(wl)
            total = sum(e[4] for e in ops if e[2] == "write")
            single = []
            for e in ops:
                for er in ERRS.get(e[2], []):
                    single.append([[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, 1]])
                    if rng.random() < 0.3:
                        single.append([[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, 0]])     # stays broken
                if e[2] == "write" and e[4] > 1:
                    single.append([[e[0], KLASS["write"], "", 0, A_TORN, rng.randint(1, e[4] - 1), ENOSPC, 1]])
                    single.append([[e[0], KLASS["write"], "", 0, A_TORN, rng.choice([8, 16, e[4] - 8, e[4] - 1]), EIO, 1]])
            rng.shuffle(single)
            for i, rules in enumerate(single[:250]):
                yield dict(wl, rules=rules, retry=rng.random() < 0.4, keep=rng.random() < 0.3)
                if stop():
                    return
            for i in range(60):
                rules = []
                for _ in range(rng.randint(1, 5)):
                    k = rng.random()
                    if k < 0.3:
                        rules.append([-1, KLASS["write"], "", rng.randint(0, 30), A_SHORT, rng.choice([1, 7, 8, 9, 100]), 0,
                                      rng.choice([1, 3, 0])])
                    elif k < 0.45:
                        rules.append([-1, KLASS["write"] | KLASS["create"], "", rng.randint(0, 40), A_ERRNO, 0, EINTR, 1])
                    else:
                        e = rng.choice(ops)
                        if e[2] in ERRS:
                            rules.append([e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, rng.choice(ERRS[e[2]]), rng.choice([1, 1, 4])])
                cap = rng.choice([-1, -1, rng.randint(0, total), rng.randint(0, total)])
                yield dict(wl, rules=rules, cap=cap, retry=rng.random() < 0.5, keep=rng.random() < 0.3,
                           again=[n for n in wl["order"] if rng.random() < 0.3] if i % 3 == 0 else [])
                if stop():
                    return
            names = wl["order"]
            for i in range(20):
                rules = []
                if rng.random() < 0.3:
                    e = rng.choice(ops)
                    if e[2] in ERRS:
                        rules.append([e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, rng.choice(ERRS[e[2]]), 1])
                yield dict(wl, rules=rules, bad={n: rng.randrange(12) for n in rng.sample(names, min(len(names), rng.randint(1, 3)))},
                           retry=rng.random() < 0.5, form=rng.randrange(3))
                if stop():
                    return
            # benign disturbances only: everything must succeed
            for i in range(8):
                yield dict(wl, form=i % 3, again=[n for n in wl["order"] if rng.random() < 0.2] if i % 2 else [], rules=[[-1, KLASS["write"], "", rng.randint(0, 5), A_SHORT, rng.choice([1, 5, 8, 13]), 0, 0],
                                      [-1, KLASS["write"] | KLASS["create"], "", rng.randint(0, 40), A_ERRNO, 0, EINTR, rng.choice([1, 2])]])
                if stop():
                    return


class P04(PyWriteBase):
    prop = "P04"
    level = "exploration"
    rule = ("one run = one workload executed by the real Python builder over the simulated disk, stopped at one operation, inside a write "
            "after a given number of bytes, then reopened on what the disk holds, optionally after other faults and followed by a rerun; "
            "non-trivial = the crash fired")
    measure = "distinct (operation and file of the crash, outcome per damaged resource)"

    def scenarios(self, worker, nworkers, stop):
        for wl in self.workloads(worker, nworkers):
            rng = random.Random("p04/%s" % wl["values"])
            ops = self.profile(wl)
            plans = []
            for e in ops:
                if e[2] == "write":
                    n = e[4]
                    pts = set([0, 1, 7, 8, 9, 15, 16, 17, n - 9, n - 8, n - 7, n - 1, n] + [rng.randint(0, max(0, n)) for _ in range(3)])
                    for j in sorted(x for x in pts if 0 <= x <= n):
                        plans.append([[e[0], 0, "", 0, A_CRASH, j, 0, 1]])
                elif e[2] in ("create", "mkdir", "close", "rename", "unlink", "truncate"):
                    plans.append([[e[0], 0, "", 0, A_CRASH, 0, 0, 1]])
            rng.shuffle(plans)
            for rules in plans[:300]:
                extra = []
                if rng.random() < 0.15:
                    e = rng.choice(ops)
                    if e[2] in ERRS and e[0] < rules[0][0]:
                        extra = [[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, rng.choice(ERRS[e[2]]), 1]]
                if rng.random() < 0.1:
                    extra.append([-1, KLASS["write"], "", 0, A_SHORT, rng.choice([1, 9, 20]), 0, 0])
                yield dict(wl, rules=extra + rules, rerun=rng.random() < 0.25, old=rng.choice([None, None, "same", "other"]))
                if stop():
                    return
