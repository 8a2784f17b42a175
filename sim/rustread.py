"""P25: opening existing archives with the Rust library."""
from . import diskmodel as dm, pylib
from .common import Violation
from .cppdrv import dump_text, parse_dump
from .cppmodel import Model
from .cppread import P05
from .rustcheck import RustMixin

MISSING, BAD = "missing", "bad"


class ShortInstance(Exception):
    pass


def payload(disk, name, text):
    """payload, MISSING (no data file) or BAD (anything else which is not in order)"""
    p = name
    while "/" in p:
        p = p.rsplit("/", 1)[0]
        if p in disk.files:
            return BAD
    if name in disk.dirs:
        return BAD
    if name not in disk.files:
        return MISSING
    b = disk.payload(name, text)
    return BAD if b is None else b


def expect(schema, arch, disk, prefix="", p="", lenient=False):
    """(R, A) of the open archive, MISSING or BAD; lenient: what is bad or missing is marked and everything else is given"""
    sig = payload(disk, prefix + arch.name + ".archive", pylib.cls(schema, arch.name).schema())
    if sig in (MISSING, BAD):
        return sig
    R, A = {}, {p: "open"}
    for r in arch.resources:
        n = p + r.name
        if r.kind == "archive":
            x = expect(schema, schema.archive(r.types[0]), disk, prefix + r.name + "/", n + "/", lenient)
            if x not in (MISSING, BAD):
                R.update(x[0])
                A.update(x[1])
                continue
        else:
            x = resource(schema, arch, r, disk, prefix)
            if x not in (MISSING, BAD):
                R[n] = x
                continue
        if (x == BAD or not r.optional) and not lenient:
            return BAD
        R[n] = "absent" if x == MISSING and r.optional else x
    return R, A


def resource(schema, arch, r, disk, prefix):
    text = pylib.cls(schema, arch.name).resource_schema(r.name)
    data = payload(disk, prefix + r.name, text)
    index = b""
    if r.kind == "multivector":
        index = payload(disk, prefix + r.name + "_index", "index(%s)" % text)
        if index == MISSING and data == MISSING:
            return MISSING
        if isinstance(index, str) or isinstance(data, str):
            return BAD
        if not index or len(index) % r.index_size:
            return BAD
    if isinstance(data, str):
        return data
    if r.kind == "vector":
        s = schema.struct(r.types[0])
        if len(data) % s.size or (s.has_range and not data):
            return BAD
    if r.kind == "instance" and len(data) < schema.struct(r.types[0]).size:
        raise ShortInstance()
    v = dm.decode(schema, r, data, index)
    t = dump_text(schema, r, v)
    lim = Model.limit(schema, arch, r)
    if lim is not None and int(t.split(" ")[1]) > lim:
        return BAD
    return t


def with_sentinels(schema, arch, vals):
    """a vector of range structures has at least the end of its (empty) last range"""
    for r in arch.resources:
        if r.name not in vals:
            continue
        if r.kind == "archive":
            with_sentinels(schema, schema.archive(r.types[0]), vals[r.name])
        elif r.kind == "vector" and schema.struct(r.types[0]).has_range and not vals[r.name]:
            vals[r.name] = [[0] * len(schema.struct(r.types[0]).fields)]
    return vals


class P25(RustMixin, P05):
    prop = "P25"
    wide = False
    rule = ("one run = one stored archive (seeded schema, values and absent optional resources) with up to five seeded damages (deleted, truncated, extended, "
            "flipped, swapped, emptied, consistently resized files, altered schema texts, directories in place of files) opened by the real Rust reader, with I/O errors at "
            "chosen stat, open and mmap calls; then opened again without errors; non-trivial = at least one damage or fault")
    measure = "distinct (schema, damages by kind and file, faulted operations, outcome)"

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return with_sentinels(schema, schema.archives[sc["ai"]], P05.vals(self, sc))

    def judge(self, sc, root, cmds, resp, st, out):
        schema = self.schemas[sc["schema"]]
        self.short = False
        real = dm.cpp_expect

        def rust_expect(s, a, disk):
            try:
                x = expect(s, a, disk)
            except ShortInstance:
                self.short = True
                x = BAD
            return ({}, {"": "closed"}) if isinstance(x, str) else x
        dm.cpp_expect = rust_expect
        try:
            return P05.judge(self, sc, root, cmds, resp, st, out)
        finally:
            dm.cpp_expect = real

    def check(self, sc, schema, arch, exp, cmds, resp, hit, root):
        ans = [r.split(" ", 1)[1] for r in resp]
        R, A = exp
        last = cmds.index("X")
        opened = {}
        for k, c in enumerate(cmds):
            t = c.split(" ")
            if ans[k].startswith("panic"):
                if self.short:
                    raise Violation("short-instance-panic: opening an archive with an instance resource smaller than its structure panics: %s" % ans[k][:160])
                raise Violation("panic: %s answered by %s" % (t[0], ans[k][:300]))
            if t[0] == "S" and ans[k] != "ok":
                raise Violation("spurious-failure: the storage could not be created")
            faulted = bool(hit) and k < last
            if t[0] == "o":
                opened[t[1]] = ans[k] == "open"
                if ans[k] == "open" and A[""] != "open":
                    raise Violation("open-damaged: an archive with missing or damaged mandatory parts was opened")
                if ans[k] != "open" and A[""] == "open" and not faulted:
                    raise Violation("closed-complete: the archive is complete but opening it answers %s" % ans[k][:160])
            if t[0] == "d":
                if not opened[t[1]]:
                    continue
                GR, GA = parse_dump(ans[k])
                for p in sorted(set(R) | set(GR)):
                    if R.get(p) != GR.get(p):
                        raise Violation("wrong-content: %s%s shows %s, stored is %s" % ("errors in between, " if faulted else "", p, str(GR.get(p))[:120], str(R.get(p))[:120]))
                if GA != A:
                    raise Violation("wrong-state: archives %s, expected %s" % (GA, A))
            if t[0] == "ds" and opened[t[1]] and not ans[k].startswith("text "):
                raise Violation("raised: describe answered %s" % ans[k][:120])
        if pylib.read_dir(root + "/d/a") != self.files:
            raise Violation("modified: opening changed the files")
