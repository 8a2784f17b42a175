"""P22: every way of looking at an open Python archive shows what reading its elements one by one shows."""
import gc
import hashlib
import json
import os
import random
import shutil

from . import common, diskmodel as dm, pylib, simlib
from .common import Result, Violation
from .cppcheck import values_for
from .py_read import P06, PERRS, err_kind
from .simlib import A_ERRNO, KLASS


class Seam:
    """numpy as the reader sees it: fresh memory holds what the run's seed says instead of whatever was freed last"""

    def __init__(self, np, seed):
        self._np, self._rng = np, random.Random(seed)
        self.handed_out = 0

    def __getattr__(self, name):
        return getattr(self._np, name)

    def empty(self, *a, **k):
        r = self._np.empty(*a, **k)
        b = r.nbytes
        if b:
            r = self._np.frombuffer(bytearray(self._rng.choice([b"\xa5", b"\xff", b"\0", b"\x01"]) * b), dtype=r.dtype).reshape(r.shape)
            self.handed_out += b
        return r


def rand_slice(rng, n):
    def p():
        return rng.choice([None, None, 0, 1, -1, n, -n, n + 1, -n - 1, n // 2, rng.randint(-n - 3, n + 3)])
    return [p(), p(), rng.choice([None, None, None, 1, 2, 3, -1, -2, n + 1, -n - 1, 7])]


def same(got, want, what):
    if got != want:
        raise Violation("wrong-view: %s shows %s, element by element it is %s" % (what, str(got)[:160], str(want)[:160]))


def raises(what, f, kinds):
    try:
        x = f()
    except kinds:
        return
    raise Violation("wrong-view: %s gives %s instead of raising %s" % (what, str(x)[:80], "/".join(k.__name__ for k in kinds)))


def plain(x):
    return bool(x) if type(x).__name__ in ("bool_", "bool") else x.item() if hasattr(x, "item") else x


class Views:
    def __init__(self, schema, arch, archive, vals):
        self.schema, self.arch, self.archive, self.vals = schema, arch, archive, vals
        self.kept, self.turn = [], 0

    # ------------------------------------------------------------ what the user still holds from earlier looks
    def keep(self, what, f):
        """f() compares something obtained earlier with the stored values again"""
        self.kept.append((what, f))
        if len(self.kept) > 24:
            self.kept.pop(self.turn % 24)

    def keep_elements(self, what, xs, rows):
        self.keep(what, lambda: same([tuple(x.as_tuple()) for x in xs], rows, what + ", looked at again later,"))

    def keep_iter(self, what, it, rows, view):
        it, k = iter(it), [0]

        def step():
            if k[0] > len(rows):
                return
            k[0] += 1
            try:
                x = next(it)
            except StopIteration:
                same(k[0] - 1, len(rows), "the number of elements of " + what)
                k[0] = len(rows) + 1
                return
            if k[0] > len(rows):
                raise Violation("wrong-view: %s goes on after %d elements" % (what, len(rows)))
            view(x, rows[k[0] - 1], "element %d of %s" % (k[0] - 1, what))
        self.keep(what, step)
        step()

    def revisit(self):
        for _ in range(min(3, len(self.kept))):
            self.turn += 1
            self.kept[self.turn % len(self.kept)][1]()

    def at(self, path):
        """(resource description, opened resource, stored value) of a path like sub/name"""
        arch, a, vals = self.arch, self.archive, self.vals
        parts = path.split("/")
        for p in parts[:-1]:
            r = arch.res(p)
            a, arch = getattr(a, p), self.schema.archive(r.types[0])
            vals = vals[p]
        return arch.res(parts[-1]), getattr(a, parts[-1]), vals.get(parts[-1])

    def names(self, r, ti=0):
        return [f.name for f in self.schema.struct(r.types[ti]).fields]

    def frame(self, df, r, rows, what, cols=None):
        cols = cols or self.names(r)
        same(list(df.columns), cols, what + " columns")
        same(len(df), len(rows), what + " length")
        for k, c in enumerate(cols):
            same([plain(x) for x in df[c]], [row[k] for row in rows], "%s column %s" % (what, c))

    def element(self, x, fields, row, what):
        same(tuple(x.as_tuple()), tuple(row), what)
        same(list(x.as_list()), list(row), what + ".as_list()")
        same(x.as_dict(), dict(zip(fields, row)), what + ".as_dict()")
        same(list(x), list(row), "iterating " + what)
        same([getattr(x, f) for f in fields], list(row), "the fields of " + what)
        same([plain(v) for v in x.as_nparray()[0]], list(row), what + ".as_nparray()")
        same(dir(x), sorted(fields), "dir() of " + what)
        same(json.loads(repr(x))["attributes"], {f: v for f, v in zip(fields, row)}, "repr() of " + what)

    def bucket(self, r, got, want, what):
        pre = self.schema.ns.replace(".", "_") + "_"
        same([type(x).__name__ for x in got], [pre + r.types[ti] for ti, _ in want], "the element types of " + what)
        for x, (ti, row) in zip(got, want):
            same(tuple(x.as_tuple()), tuple(row), "an element of " + what)

    # ------------------------------------------------------------ operations
    def run(self, op):
        self.look(op)
        self.revisit()

    def look(self, op):
        kind, path = op[0], op[1]
        if kind == "archive":
            return self.table(path)
        r, res, val = self.at(path)
        if val is None:
            same(res, None, path)
            return
        if r.kind == "archive":
            return
        getattr(self, "on_" + r.kind)(r, res, val, op, path)

    def table(self, path):
        arch, a, vals = self.arch, self.archive, self.vals
        for p in [x for x in path.split("/") if x]:
            r = arch.res(p)
            a, arch, vals = getattr(a, p), self.schema.archive(r.types[0]), vals[p]
        df = a.to_data_frame()
        rows = []
        for r in arch.resources:
            v = vals.get(r.name)
            rows.append((r.name, dict(instance="Instance", vector="Vector", multivector="Multivector", raw_data="RawData", archive="Archive")[r.kind], r.optional,
                         None if v is None else self.bytes_of(r, v), None if v is None else self.count(r, v)))
        same(list(df.columns), ["Name", "Type", "Optional", "SizeInBytes", "Size"], "the table of the archive")
        got = [tuple(None if isinstance(plain(x), float) and plain(x) != plain(x) else plain(x) for x in t) for t in df.itertuples(index=False)]
        rows.insert(0, (arch.name + ".archive", "RawData", False, 16, 0))
        same(sorted(got), sorted(rows), "the table of the archive")
        same([x for x in got if x[0] != rows[0][0]], rows[1:], "the table of the archive")
        same(len(a), len(rows), "the length of the archive")
        same(a.size_in_bytes(), sum(x[3] for x in rows if x[3] is not None), "the size of the archive")
        same(set(dir(a)), {x[0] for x in rows} | {"schema"}, "dir() of the archive")
        repr(a)

    def bytes_of(self, r, v):
        if r.kind == "archive":
            return 16 + sum(self.bytes_of(x, v[x.name]) for x in self.schema.archive(r.types[0]).resources if v.get(x.name) is not None)
        return len(self.schema.files(r, v)[r.name])

    def count(self, r, v):
        return {"archive": lambda: 1 + len(self.schema.archive(r.types[0]).resources), "instance": lambda: 1}.get(r.kind, lambda: len(v))()

    def on_vector(self, r, v, rows, op, path):
        rows, fs, n, what = [tuple(x) for x in rows], self.names(r), len(rows), op[0]
        if what == "all":
            same(len(v), n, "len(%s)" % path)
            same(v.size_in_bytes(), self.bytes_of(r, rows), path + ".size_in_bytes()")
            xs = list(v)
            same([tuple(x.as_tuple()) for x in xs], rows, "iterating " + path)
            self.keep_elements("the elements of list(%s)" % path, xs, rows)
            d = json.loads(repr(v))
            same((d["size"], d["size_in_bytes"], d["container_type"]), (n, v.size_in_bytes(), "Vector"), "repr(%s)" % path)
            self.frame(v.to_data_frame(), r, rows, path + ".to_data_frame()")
        elif what == "index":
            i = op[2]
            if -n <= i < n:
                x = v[i]
                self.element(x, fs, rows[i], "%s[%d]" % (path, i))
                self.keep_elements("the element %s[%d]" % (path, i), [x], [rows[i]])
            else:
                raises("%s[%d] of %d elements" % (path, i, n), lambda: v[i], (IndexError,))
        elif what == "iter":
            t = "%s[%s]" % (path, ":".join("" if x is None else str(x) for x in op[3])) if op[2] % 2 else path
            self.keep_iter("the unfinished iteration over " + t, v[slice(*op[3])] if op[2] % 2 else v, rows[slice(*op[3])] if op[2] % 2 else rows,
                           lambda x, row, w: same(tuple(x.as_tuple()), tuple(row), w))
        elif what == "column":
            f = fs[op[2] % len(fs)]
            self.frame(getattr(v, f), r, [(x[fs.index(f)],) for x in rows], "%s.%s" % (path, f), [f])
        else:
            s = slice(*op[3])
            want, t = rows[s], "%s[%s]" % (path, ":".join("" if x is None else str(x) for x in op[3]))
            if what == "slice":
                sl = v[s]
                xs = list(sl)
                same([tuple(x.as_tuple()) for x in xs], want, "iterating " + t)
                self.keep_elements("the elements of list(%s)" % t, xs, want)
                self.keep("the slice " + t, lambda: same([tuple(x.as_tuple()) for x in sl], want, "the slice %s, looked at again later," % t))
            elif what == "numpy":
                a = v[s].to_numpy(*([op[2]] if op[2] else []))
                want = want[:op[2]] if op[2] else want
                t += ".to_numpy(%s)" % (op[2] or "")
                same(list(a.dtype.names), fs, "the names of " + t)
                same([tuple(plain(x) for x in row) for row in a], want, t)
                self.keep(t, lambda: same([tuple(plain(x) for x in row) for row in a], want, t + ", looked at again later,"))
            elif what == "frame":
                df, want = v[s].to_data_frame(*([op[2]] if op[2] else [])), want[:op[2]] if op[2] else want
                self.frame(df, r, want, t + ".to_data_frame()")
                self.keep(t, lambda: self.frame(df, r, want, t + ".to_data_frame(), looked at again later,"))
            elif what == "slicecolumn":
                f = fs[op[2] % len(fs)]
                self.frame(getattr(v[s], f), r, [(x[fs.index(f)],) for x in want], "%s.%s" % (t, f), [f])
            elif what == "show":
                same(repr(v[s]), "Displaying first 100 records:\n" + repr(v[s].to_data_frame(100)), "repr(%s)" % t)
                self.frame(v[s].to_data_frame(100), r, want[:100], t + ".to_data_frame(100)")

    def on_instance(self, r, v, row, op, path):
        fs = self.names(r)
        if op[0] == "index":
            i = op[2]
            if i in (0, -1):
                x = v[i]
                self.element(x, fs, row, "%s[%d]" % (path, i))
                self.keep_elements("the element %s[%d]" % (path, i), [x], [tuple(row)])
            else:
                raises("%s[%d]" % (path, i), lambda: v[i], (IndexError,))
        elif op[0] in ("slice", "numpy", "frame", "slicecolumn", "show"):
            raises("slicing the instance " + path, lambda: v[slice(*op[3])], (IndexError,))
        else:
            same([getattr(v, f) for f in fs], list(row), "the fields of " + path)
            same([tuple(x.as_tuple()) for x in v], [tuple(row)], "iterating " + path)
            same(len(v), 1, "len(%s)" % path)
            json.loads(repr(v))

    def on_multivector(self, r, v, buckets, op, path):
        n = len(buckets)
        if op[0] == "index":
            i = op[2]
            if -n <= i < n:
                b = v[i]
                self.bucket(r, b, buckets[i], "%s[%d]" % (path, i))
                self.keep("bucket", lambda: self.bucket(r, b, buckets[i], "%s[%d], looked at again later" % (path, i)))
            else:
                raises("%s[%d] of %d elements" % (path, i, n), lambda: v[i], (IndexError,))
        elif op[0] in ("slice", "numpy", "frame", "slicecolumn", "show"):
            s = slice(*op[3])
            t = "%s[%s]" % (path, ":".join("" if x is None else str(x) for x in op[3]))
            got = list(v[s])
            same(len(got), len(buckets[s]), "the length of " + t)
            for k, (g, w) in enumerate(zip(got, buckets[s])):
                self.bucket(r, g, w, "element %d of %s" % (k, t))
            self.keep(t, lambda: [self.bucket(r, g, w, "an element of %s, looked at again later" % t) for g, w in zip(got, buckets[s])])
            if op[0] == "show":
                repr(v[s])
        elif op[0] == "iter":
            s = slice(*op[3])
            self.keep_iter("the unfinished iteration over " + path, v[s] if op[2] % 2 else v, buckets[s] if op[2] % 2 else buckets, lambda x, w, t: self.bucket(r, x, w, t))
        else:
            same(len(v), n, "len(%s)" % path)
            got = list(v)
            self.keep(path, lambda: [self.bucket(r, g, w, "an element of list(%s), looked at again later" % path) for g, w in zip(got, buckets)])
            same(len(got), n, "the number of elements iterating " + path)
            for k, (g, w) in enumerate(zip(got, buckets)):
                self.bucket(r, g, w, "element %d iterating %s" % (k, path))
            same(json.loads(repr(v))["size"], n, "repr(%s)" % path)

    @staticmethod
    def is_text(x):
        try:
            x.decode()
        except UnicodeDecodeError:
            return False
        return True

    def on_raw_data(self, r, v, data, op, path):
        data, n = bytes(data), len(data)
        if op[0] == "index":
            i = op[2]
            if -n <= i < n:
                x = v[i]
                same(bytes(x) if not isinstance(x, int) else bytes([x]), data[i:i + 1] if i != -1 else data[-1:], "%s[%d]" % (path, i))
            else:
                raises("%s[%d] of %d bytes" % (path, i, n), lambda: bytes(v[i]), (IndexError,))
        elif op[0] in ("slice", "numpy", "frame", "slicecolumn", "show"):
            t = "%s[%s]" % (path, ":".join("" if x is None else str(x) for x in op[3]))
            m = v[slice(*op[3])]
            same(bytes(m), data[slice(*op[3])], t)
            self.keep(t, lambda: same(bytes(m), data[slice(*op[3])], t + ", looked at again later,"))
        elif op[0] == "column":
            # the text up to the next separator
            if not n:
                return
            i = op[2] % n
            e = data.find(b"\0", i)
            if e < 0:
                return
            try:
                want = data[i:e].decode()
            except UnicodeDecodeError:
                raises("%s.sub_str(%d)" % (path, i), lambda: v.sub_str(i), (UnicodeDecodeError,))
                return
            same(v.sub_str(i), want, "%s.sub_str(%d)" % (path, i))
            parts = data[i:].split(b"\0")[:-1]
            k = 1 + op[2] % 3
            try:
                want = [x.decode() for x in parts[:k]]
            except UnicodeDecodeError:
                return
            same(v.sub_str_array(i, k), want, "%s.sub_str_array(%d, %d)" % (path, i, k))
            # the texts up to the first empty one
            if b"" in parts:
                want = [x.decode() for x in parts[:parts.index(b"")]] if all(self.is_text(x) for x in parts[:parts.index(b"")]) else None
                j = i + sum(len(x) + 1 for x in parts[:parts.index(b"")])
                if want is not None and (data[j:] + b"\0" * 8)[:2] == b"\0\0":
                    same(v.sub_str_list(i), want, "%s.sub_str_list(%d)" % (path, i))
        else:
            same(len(v), n, "len(%s)" % path)
            same(v.size_in_bytes(), n + 16, path + ".size_in_bytes()")
            got = []
            for x in v:
                got.append(x if isinstance(x, int) else bytes(x)[0] if len(x) else None)
                if len(got) > n:
                    break
            same(got, list(data), "iterating " + path)
            same(json.loads(repr(v))["size"], n, "repr(%s)" % path)


class P22(P06):
    prop = "P22"
    reducible = ("ops", "rules")
    rule = ("one run = a stored archive (seeded schema, values, absent optional resources; a directory or a TAR file) opened by the real Python reader, with I/O errors, interrupted or short calls while opening, "
            "then a seeded history of looks at it - indices, slices, iteration, numpy arrays, data frames, columns, tables, texts - interleaved with the files being deleted or replaced, failing file "
            "operations and collected garbage, fresh memory of numpy holding seeded bytes; every look is compared with the stored values; non-trivial = at least one disturbance took place before a look")
    measure = "distinct (schema, kind of storage, sequence of looks and disturbances)"
    stub = P06.stub + ("numpy.empty as the reader sees it (hands out memory with seeded content)",)

    def prepare(self):
        super().prepare()
        import flatdata.lib.tar_archive_resource_storage  # noqa

    def paths(self, schema, arch, vals, pre=""):
        out, tables = [], [pre.rstrip("/")]
        for r in arch.resources:
            v = vals.get(r.name)
            if r.kind == "archive":
                if v is not None:
                    o, t = self.paths(schema, schema.archive(r.types[0]), v, pre + r.name + "/")
                    out, tables = out + o, tables + t
            else:
                out.append((pre + r.name, r, 0 if v is None else 1 if r.kind == "instance" else len(v)))
        return out, tables

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p22/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            sid = self.sids[0] if rng.random() < 0.3 else rng.choice(self.sids)
            schema = pylib.schema_by_id(sid)
            arch = schema.root()
            base = dict(schema=sid, values=seed, scale=rng.choice([None, None, 0, 1, 3, 30, 130]), damage=[])
            paths, tables = self.paths(schema, arch, self.vals(base))
            for k in range(6):
                ops = []
                dist = rng.choice([0.1, 0.3])
                for _ in range(rng.choice([6, 15, 30])):
                    if rng.random() < dist:
                        ops.append([rng.choice(["del", "replace", "fail", "gc", "again", "poison"])])
                    elif rng.random() < 0.1:
                        ops.append(["archive", rng.choice(tables)])
                    else:
                        last = [o for o in ops if len(o) > 3]
                        again = rng.choice(last) if last and rng.random() < 0.5 else None
                        p, r, n = rng.choice(paths) if not again else next(x for x in paths if x[0] == again[1])
                        what = rng.choice(["all", "index", "index", "iter", "column", "slice", "slice", "numpy", "frame", "slicecolumn", "show"])
                        a = rng.choice([0, -1, n, -n, n - 1, -n - 1, rng.randint(-n - 2, n + 2)]) if what == "index" else rng.choice([0, 1, 2, 3, n, n + 1, 100, rng.randint(0, 200)])
                        s = rand_slice(rng, n)
                        if again:
                            # nearly what was looked at before: a cache that leaves out a part of its key would show it
                            what = rng.choice([what, again[0]])
                            k = rng.randrange(3)
                            s = [s[k] if j == k else x for j, x in enumerate(again[3])]
                            a = rng.choice([a, again[2]])
                        ops.append([what, p, a, s])
                rules = []
                if rng.random() < 0.3:
                    e = rng.choice(["stat", "open", "mmap"])
                    if PERRS.get(e):
                        rules.append([-1, KLASS[e], "", rng.randint(0, 12), A_ERRNO, 0, rng.choice(PERRS[e]), 1])
                yield dict(base, ops=ops, rules=rules, tar=rng.random() < 0.35, npseed=rng.randint(0, 1 << 30))
                if stop():
                    return

    def open_any(self, sc, schema, root):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
        s = TarArchiveResourceStorage.create(os.path.join(root, "a.tar")) if sc["tar"] else FileResourceStorage(os.path.join(root, "a"))
        return pylib.cls(schema, schema.root().name)(s)

    def disturb(self, op, sc, schema, root, files):
        t = os.path.join(root, "a.tar") if sc["tar"] else os.path.join(root, "a")
        k = op[0]
        if k == "gc":
            gc.collect()
        elif k == "again":
            try:
                self.open_any(sc, schema, root)
            except Exception:
                pass
        elif k == "fail":
            simlib.begin(root, [[-1, sum(KLASS.values()), "", 0, A_ERRNO, 0, 5, 0]])
        elif k == "del":
            for d, _, fs in list(os.walk(root)):
                for f in fs:
                    os.unlink(os.path.join(d, f))
        elif k == "replace":
            for d, _, fs in list(os.walk(root)):
                for f in fs:
                    p = os.path.join(d, f)
                    with open(p + ".new", "wb") as o:
                        o.write(b"\x5a" * (os.path.getsize(p) + 3))
                    os.rename(p + ".new", p)

    def execute(self, sc):
        import flatdata.lib.resources as lib
        schema = pylib.schema_by_id(sc["schema"])
        arch = schema.root()
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        vals = self.vals(sc)
        files = dm.archive_files(schema, arch, vals)
        os.makedirs(root)
        if sc["tar"]:
            from .snapshot import plain_tar
            plain_tar(os.path.join(root, "a.tar"), files, dm.dirs_of(files))
        else:
            dm.write_tree(os.path.join(root, "a"), files, dm.dirs_of(files))
        kinds, trace, done, disturbed, nops = {}, [], 0, 0, 0
        np = lib.np
        seam = Seam(np, sc["npseed"])
        inside = False
        lib.np = seam
        try:
            simlib.begin(root, sc["rules"])
            inside = True
            try:
                a = self.open_any(sc, schema, root)
            except Exception as e:
                if not sc["rules"] or not (isinstance(e, OSError) or err_kind(e)):
                    raise Violation("unreadable: opening raised %s: %s" % (type(e).__name__, str(e)[:200]))
                trace.append("open: %s" % type(e).__name__)
                simlib.lib().sim_clear_rules()
                a = self.open_any(sc, schema, root)
            kinds = dict(simlib.kinds())
            nops = simlib.lib().sim_ops()
            simlib.end()
            inside = False
            v = Views(schema, arch, a, vals)
            for op in sc["ops"]:
                if op[0] in ("del", "replace", "fail", "gc", "again", "poison"):
                    if inside:
                        simlib.end()
                        inside = False
                    self.disturb(op, sc, schema, root, files)
                    inside = op[0] == "fail"
                    kinds["view_" + op[0]] = kinds.get("view_" + op[0], 0) + 1
                    disturbed += 1
                    continue
                done += 1
                try:
                    v.run(op)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation("wrong-view: %s raises %s: %s" % (op, type(e).__name__, str(e)[:160]))
            violation = None
        except Violation as e:
            violation = str(e)
        finally:
            if inside:
                simlib.end()
            lib.np = np
            a = v = None
            gc.collect() if disturbed else None
            shutil.rmtree(root, ignore_errors=True)
        if seam.handed_out:
            kinds["dirty_memory"] = 1
        stats = {"ops": nops + done, "faults": kinds, "seeds": 1}
        if violation:
            return Result(violation=violation, key="violation", nontrivial=True, trace=trace, stats=stats)
        nontriv = bool(kinds)
        sig = str([o[:1] + o[2:] if len(o) > 2 else o for o in sc["ops"]])
        return Result(key=(str(sc["schema"]) + ("tar" if sc["tar"] else "dir") + hashlib.sha256(sig.encode()).hexdigest()[:20]) if nontriv else "trivial", nontrivial=nontriv, trace=trace, stats=stats)
