"""P06: opening Python archives over damaged files and failing I/O."""
import gc
import os
import random
import shutil

from . import common, diskmodel as dm, pylib, simlib
from .common import Check, Result, Violation
from .cppcheck import values_for
from .py_write import EACCES, EIO, EMFILE
from .simlib import A_ERRNO, KLASS

ENOMEM, ELOOP = 12, 40
PERRS = {"stat": [EIO, EACCES, ELOOP], "open": [EMFILE, EACCES, EIO], "mmap": [ENOMEM, EIO], "read": [EIO], "opendir": [EMFILE]}

MISSING, MISMATCH, CORRUPT = "MissingResourceError", "SchemaMismatchError", "CorruptArchiveError"


def err_kind(e):
    """documented error a raised exception stands for, or None"""
    from flatdata.lib import errors as E
    if isinstance(e, E.MissingResourceError):
        return MISSING
    if isinstance(e, E.CorruptArchiveError):
        return CORRUPT
    if isinstance(e, E.SchemaMismatchError):
        return MISMATCH
    return None


class Odd(Exception):
    """a directory in place of a file or the like: an error of any kind is expected"""


def py_resource(schema, arch, r, disk, prefix):
    """("value", v) | ("absent",) | ("error", kinds) for one stored resource (r None: the signature)"""
    c = pylib.cls(schema, arch.name)
    name = prefix + (r.name if r else arch.name + ".archive")
    text = c.resource_schema(r.name) if r else c.schema()
    parts = [(name, [text])]
    if r is not None and r.kind == "multivector":
        parts.append((name + "_index", ["index(%s)" % text, text]))
    kinds, missing, odd = set(), False, False
    for f, texts in parts:
        if f in disk.dirs or f + ".schema" in disk.dirs:
            odd = True
        s, d = disk.files.get(f + ".schema"), disk.files.get(f)
        if s is None:
            missing = True
        elif s not in [t.encode() for t in texts]:
            kinds.add(MISMATCH)
            if not s:
                kinds |= {CORRUPT, MISSING}
        if d is None:
            missing = True
        else:
            bad = len(d) < 16 or int.from_bytes(d[:8], "little") + 16 != len(d)
            n = len(d) - 16
            if not bad and r is not None:
                if f.endswith("_index") and r.kind == "multivector" and f != prefix + r.name:
                    bad = n % r.index_size != 0
                elif r.kind == "vector":
                    bad = n % schema.struct(r.types[0]).size != 0
                elif r.kind == "instance":
                    bad = n != schema.struct(r.types[0]).size
            if bad:
                kinds.add(CORRUPT)
                if not d:
                    kinds.add(MISSING)
    if odd:
        raise Odd(r is not None and r.optional)
    opt = r is not None and r.optional
    if missing:
        if opt:
            # the files that are there may still be damaged
            return ("absent",) if not kinds else ("any", kinds)
        return ("error", kinds | {MISSING})
    if kinds:
        return ("error", kinds)
    if r is None:
        return ("value", None)
    index = disk.files[name + "_index"][8:-8] if r.kind == "multivector" else b""
    try:
        v = dm.decode(schema, r, disk.files[name][8:-8], index)
    except dm.Undecodable:
        return ("value", Ellipsis)
    return ("value", v)


def py_expect(schema, arch, disk, prefix=""):
    """({path: expected value or None}, kinds of errors, certain)"""
    vals, kinds, certain, odd = {}, set(), False, False
    for r in [None] + arch.resources:
        if r is not None and r.kind == "archive":
            n = prefix + r.name
            if n in disk.files:
                raise Odd(r.optional)
            if n not in disk.dirs:
                if not r.optional:
                    kinds.add(MISSING)
                    certain = True
                vals[r.name] = None
                continue
            v, k, c = py_expect(schema, schema.archive(r.types[0]), disk, n + "/")
            kinds |= k
            certain = certain or c
            vals[r.name] = v
            continue
        e = py_resource(schema, arch, r, disk, prefix)
        if e[0] == "error":
            kinds |= e[1]
            certain = True
        elif e[0] == "any":
            kinds |= e[1]
            vals[r.name] = None
        elif e[0] == "absent":
            vals[r.name] = None
        elif r is not None:
            vals[r.name] = pylib.norm(r, e[1]) if e[1] is not Ellipsis and r.kind != "archive" else e[1]
    return vals, kinds, certain


def content(schema, arch, a, skip, path=""):
    """values of an opened archive in the form py_expect gives them; skip: expectation (resources without meaning are left out)"""
    out = {}
    for r in arch.resources:
        x = getattr(a, r.name)
        if x is None:
            out[r.name] = None
        elif r.kind == "archive":
            out[r.name] = content(schema, schema.archive(r.types[0]), x, skip.get(r.name) or {}, path + r.name + "/")
        elif skip.get(r.name) is Ellipsis:
            out[r.name] = Ellipsis
        else:
            out[r.name] = pylib.read_res(schema, r, x)
    return out


def first_difference(e, g, p=""):
    for k in sorted(set(e) | set(g)):
        a, b = e.get(k), g.get(k)
        if isinstance(a, dict) and isinstance(b, dict):
            d = first_difference(a, b, p + k + "/")
            if d:
                return d
        elif a != b:
            return "%s%s shows %s, stored is %s" % (p, k, "nothing" if b is None else str(b)[:100], "nothing" if a is None else str(a)[:100])
    return None


class P06(Check):
    prop = "P06"
    level = "exploration"
    preload = True
    isolate = False
    reducible = ("damage", "rules")
    rule = ("one run = one stored archive (seeded schema with sub-archives, values and absent optional resources) with up to five seeded damages (deleted, truncated, extended, flipped, "
            "swapped, emptied, consistently resized files, altered schema texts, directories in place of files), opened by the real Python reader with I/O errors at chosen stat, open "
            "and mmap calls, then opened again without errors; non-trivial = at least one damage or fault")
    measure = "distinct (schema, damages by kind and file, faulted operations, error raised)"
    real = ("flatdata-py: Archive, resources, FileResourceStorage, data_access (current tree)", "flatdata-generator: Python code of every schema used", "CPython mmap and io modules")
    stub = ("kernel file system calls below the scratch directory (libc interposition; real tmpfs behind it)",)
    nrandom = {"quick": 10, "thorough": 60}

    def schema_ids(self):
        return ["fixed", "pyfixed"] + [["rnd", self.seed * 1000 + i, 0] for i in range(self.nrandom[self.tier])]

    def prepare(self):
        import multiprocessing as mp
        self.sids = self.schema_ids()
        with mp.Pool(common.NCPU) as p:
            p.map(_warm, self.sids)
        import flatdata.lib  # noqa
        import flatdata.lib.file_resource_storage  # noqa

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p06/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            sid = self.sids[0] if rng.random() < 0.3 else rng.choice(self.sids)
            schema = pylib.schema_by_id(sid)
            arch = schema.root()
            base = dict(schema=sid, values=seed, scale=rng.choice([None, None, 0, 1, 3]), damage=[], rules=[])
            vals = self.vals(base)
            files = dm.archive_files(schema, arch, vals)
            yield base
            single = []
            for f in sorted(files):
                n = len(files[f])
                single += [["del", f], ["trunc", f, 0], ["trunc", f, n - 1], ["ext", f, 1], ["flip", f, rng.randint(0, min(7, n - 1)), 1 << rng.randint(0, 7)], ["mkdir", f]]
                if f.endswith(".schema"):
                    single += [["flip", f, rng.randint(0, n - 1), 1 << rng.randint(0, 7)], ["app", f, rng.choice(["\n", " ", "\0"])], ["cut", f, rng.randint(0, n - 1)], ["crlf", f]]
                else:
                    single += [["resize", f, max(0, n - 16 + rng.choice([-1, 1, -8, 8, 16]))]]
            rng.shuffle(single)
            for d in single[:60]:
                yield dict(base, damage=[d])
                if stop():
                    return
            for k in range(80):
                yield dict(base, damage=[dm.rand_damage(rng, schema, arch, vals, files) for _ in range(rng.choice([1, 1, 2, 3, 5]))])
                if stop():
                    return
            ops = self.profile(base)
            plans = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, c]] for e in ops for er in PERRS.get(e[2], []) for c in (1, 0)]
            rng.shuffle(plans)
            for rules in plans[:80]:
                dmg = [dm.rand_damage(rng, schema, arch, vals, files) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
                if rng.random() < 0.3:
                    rules = rules + rng.choice(plans)
                yield dict(base, damage=dmg, rules=rules)
                if stop():
                    return

    def vals(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        return values_for(schema, schema.root(), sc["values"], random.Random(sc["values"] + "/opt"), scale=sc["scale"])

    def tree(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        files = dm.archive_files(schema, schema.root(), self.vals(sc))
        dirs = dm.dirs_of(files)
        for d in sc["damage"]:
            dm.apply_damage(files, dirs, d)
        return files, dirs

    def root(self):
        return os.path.join(common.scratch(), "p%d" % os.getpid())

    def open(self, schema, path):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        return pylib.cls(schema, schema.root().name)(FileResourceStorage(path))

    def profile(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        files, dirs = self.tree(sc)
        dm.write_tree(os.path.join(root, "a"), files, dirs)
        simlib.begin(root)
        try:
            self.open(schema, os.path.join(root, "a"))
        finally:
            simlib.end()
            shutil.rmtree(root, ignore_errors=True)
        return simlib.log()

    def execute(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        arch = schema.root()
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        files, dirs = self.tree(sc)
        path = os.path.join(root, "a")
        dm.write_tree(path, files, dirs)
        disk = dm.Disk(files, dirs)
        try:
            exp = py_expect(schema, arch, disk)
        except Odd as o:
            exp = "optional" if o.args[0] else None
        simlib.begin(root, sc["rules"])
        outs = []
        try:
            for k in range(2):
                try:
                    a = self.open(schema, path)
                    err = None
                except Exception as e:
                    a, err = None, e
                if k == 0:
                    simlib.lib().sim_clear_rules()
                    ops, kinds, log = simlib.lib().sim_ops(), simlib.kinds(), simlib.log()
                outs.append((a, err))
        finally:
            simlib.end()
        hit = [e for e in log if e[6]]
        stats = {"ops": ops, "faults": dict(kinds), "seeds": 1}
        for d in sc["damage"]:
            stats["faults"]["damage_" + d[0]] = stats["faults"].get("damage_" + d[0], 0) + 1
        nontriv = bool(hit or sc["damage"])
        trace = ["open: %s" % ("opened" if e is None else "%s %s" % (type(e).__name__, str(e)[:120])) for _, e in outs] + [
            "%d %s %s -> %s" % (e[0], e[2], e[3], e[6]) for e in hit]
        try:
            for k, (a, err) in enumerate(outs):
                self.judge(schema, arch, exp, a, err, bool(hit) and k == 0, "" if k == 0 else "opened again, ")
            if pylib.read_dir(path) != files:
                raise Violation("modified: opening changed the files")
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=nontriv, trace=trace, stats=stats)
        finally:
            a = outs = None
            shutil.rmtree(root, ignore_errors=True)
        key = "|".join([str(sc["schema"]), ",".join(sorted("%s:%s" % (d[0], d[1]) for d in sc["damage"])),
                        ",".join(sorted("%s:%s" % (e[2], e[3].split("/")[-1]) for e in hit))[:200], trace[0][:30]]) if nontriv else "trivial"
        return Result(key=key, nontrivial=nontriv, trace=trace, stats=stats)

    def judge(self, schema, arch, exp, a, err, faulted, what):
        kind = err_kind(err) if err is not None else None
        if exp == "optional":
            return
        if exp is None:           # something is not a file at all
            if a is not None:
                raise Violation("%swrong-state: an archive with a directory in place of a file opens" % what)
            return
        vals, kinds, certain = exp
        if err is not None:
            if faulted and (isinstance(err, OSError) or kind):
                return
            if kind is None:
                raise Violation("undocumented-error: %sopening raised %s: %s" % (what, type(err).__name__, str(err)[:200]))
            if not kinds:
                raise Violation("spurious-failure: %sopening an intact archive raised %s: %s" % (what, type(err).__name__, str(err)[:200]))
            if kind not in kinds:
                raise Violation("wrong-error: %sopening raised %s, expected one of %s" % (what, type(err).__name__, sorted(kinds)))
            return
        if certain:
            raise Violation("wrong-state: %sthe archive opens although it must raise one of %s" % (what, sorted(kinds)))
        try:
            got = content(schema, arch, a, vals)
        except Exception as e:
            raise Violation("unreadable: %sreading an opened archive raised %s: %s" % (what, type(e).__name__, str(e)[:200]))
        d = first_difference(vals, got)
        if d:
            raise Violation("wrong-content: %s%s" % (what, d))


def _warm(sid):
    pylib.rendered(pylib.schema_by_id(sid), "py")
