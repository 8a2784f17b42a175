"""Schemas, values and the independent reference model.

A Schema is our own small AST.  `text()` prints it in the flatdata schema language, `pack` encodes a row
bit by bit from the documented layout (fields back to back, little endian, struct rounded up to whole
bytes) without using any code of /repo, and `file_bytes` gives the on-disk form of a resource (u64 size,
payload, 8 bytes of padding).
"""
import random

BASIC = {"bool": (1, False), "i8": (8, True), "u8": (8, False), "i16": (16, True), "u16": (16, False),
         "i32": (32, True), "u32": (32, False), "i64": (64, True), "u64": (64, False)}
CPP = {"bool": "bool", "i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t",
       "i32": "int32_t", "u32": "uint32_t", "i64": "int64_t", "u64": "uint64_t"}


class Field:
    def __init__(self, name, type_, width=None, range_=None, optional=None, enum=None):
        self.name, self.type, self.range, self.optional, self.enum = name, type_, range_, optional, enum
        self.explicit_width = width
        self.width = width if width is not None else BASIC[type_][0]
        self.signed = BASIC[type_][1]
        self.offset = 0

    def limits(self):
        if self.signed:
            return -(1 << (self.width - 1)), (1 << (self.width - 1)) - 1
        return 0, (1 << self.width) - 1


class Enum:
    def __init__(self, name, type_, width, values):
        self.name, self.type, self.explicit_width, self.values = name, type_, width, values
        self.width = width if width is not None else BASIC[type_][0]
        self.signed = BASIC[type_][1]


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields
        off = 0
        for f in fields:
            f.offset = off
            off += f.width
        self.bits = off
        self.size = (off + 7) // 8
        self.has_range = any(f.range for f in fields)

    def pack(self, row):
        acc = 0
        for f, v in zip(self.fields, row):
            acc |= (v & ((1 << f.width) - 1)) << f.offset
        return acc.to_bytes(self.size, "little")

    def unpack(self, data):
        acc = int.from_bytes(data[:self.size], "little")
        out = []
        for f in self.fields:
            v = (acc >> f.offset) & ((1 << f.width) - 1)
            if f.signed and v >> (f.width - 1):
                v -= 1 << f.width
            out.append(v)
        return tuple(out)


class Resource:
    """kind: instance | vector | multivector | raw_data | archive"""

    def __init__(self, name, kind, types=(), width=None, optional=False, refs=()):
        self.name, self.kind, self.types, self.width = name, kind, list(types), width
        self.optional, self.refs = optional, list(refs)

    @property
    def index_size(self):
        return (self.width + 7) // 8


class Archive:
    def __init__(self, name, resources):
        self.name, self.resources, self.bound = name, resources, []

    def res(self, name):
        for r in self.resources:
            if r.name == name:
                return r
        raise KeyError(name)


HAZARDS = ['"""', "'''", "\\", "\\N{x}", "\\u12", "\\x", "{{ a }}", "{% if %}", "{# c #}", "%s", '"', '\\"', "\u00e9\u2603", "*", "**", "/", "//", "\t", "#", "???/", "r#", 'R"schema(',
           ')schema"', "`", "$", "word", "x : u32;", "}", "{", "struct S", "enum", "'"]


def comment(rng):
    """a comment that means nothing, however it looks"""
    words = " ".join(rng.choice(HAZARDS) for _ in range(rng.choice([1, 2, 3, 5])))
    if rng.random() < 0.6:
        while "*/" in words:
            words = words.replace("*/", "")
        if words.endswith("*"):
            words += "."
        return rng.choice(["/** %s */ ", "/* %s */\n", "/**\n * %s\n */\n", "/*\n%s\nmore: text\n*/\n", "/**\n   %s\n\n   second paragraph */\n"]) % words
    return rng.choice(["/// %s.\n", "// %s.\n", "//%s.\n", "//! %s.\n"]) % words


class Schema:
    def __init__(self, ns, consts, enums, structs, archives):
        self.ns, self.consts, self.enums, self.structs, self.archives = ns, consts, enums, structs, archives
        self.seed = None

    def struct(self, name):
        return next(s for s in self.structs if s.name == name)

    def archive(self, name):
        return next(a for a in self.archives if a.name == name)

    def root(self):
        return self.archives[-1]

    def text(self):
        o = ["namespace %s {" % self.ns]
        rng = random.Random("comments/%s/%s" % (self.ns, self.seed))

        def c():
            if self.seed in ("fixed", "wide") or rng.random() > 0.3:
                return ""
            return comment(rng)
        for t, n, v in self.consts:
            o.append(c() + "const %s %s = %d;" % (t, n, v))
        for e in self.enums:
            w = " : %d" % e.explicit_width if e.explicit_width is not None else ""
            o.append("/// Values of %s\nenum %s : %s%s {" % (e.name, e.name, e.type, w))
            o.append(",\n".join("    %s = %d" % (n, v) for n, v in e.values))
            o.append("}")
        for s in self.structs:
            o.append("/** Structure \"%s\" */" % s.name if rng.random() < 0.6 else c())
            o.append("struct %s {" % s.name)
            for f in s.fields:
                o.append(c())
                if f.range:
                    o.append("    @range(%s)" % f.range)
                if f.optional:
                    o.append("    @optional(%s)" % f.optional)
                w = " : %d" % f.explicit_width if f.explicit_width is not None and not f.enum else ""
                o.append("    %s : %s%s;" % (f.name, f.enum or f.type, w))
            o.append("}")
        for a in self.archives:
            o.append(c() + "".join("@bound_implicitly( %s : %s )\n" % (n, ", ".join(rs)) for n, rs in a.bound) + "archive %s {" % a.name)
            for r in a.resources:
                o.append(c())
                for src, fld, dst in r.refs:
                    o.append("    @explicit_reference( %s.%s, %s )" % (src, fld, dst))
                if r.optional:
                    o.append("    @optional")
                if r.kind == "instance":
                    t = r.types[0]
                elif r.kind == "vector":
                    t = "vector< %s >" % r.types[0]
                elif r.kind == "multivector":
                    t = "multivector< %d, %s >" % (r.width, ", ".join(r.types))
                elif r.kind == "raw_data":
                    t = "raw_data"
                else:
                    t = "archive %s" % r.types[0]
                o.append("    %s : %s;" % (r.name, t))
            o.append("}")
        o.append("}")
        return "\n".join(x for x in o if x) + "\n"

    # ------------------------------------------------------------ encoding
    def payload(self, r, v):
        """payload bytes of a resource (without size header and padding)"""
        if r.kind == "instance":
            return self.struct(r.types[0]).pack(v)
        memo = {}     # long values repeat the same row objects

        def pack(ti, row):
            b = memo.get((ti, id(row)))
            if b is None:
                b = memo[(ti, id(row))] = self.struct(r.types[ti]).pack(row)
            return b
        if r.kind == "vector":
            return b"".join([pack(0, x) for x in v])
        if r.kind == "raw_data":
            return v
        out = []
        for bucket in v:
            for ti, row in bucket:
                out.append(bytes([ti]) + pack(ti, row))
        return b"".join(out)

    def index_payload(self, r, v):
        off, out = 0, []
        sizes = [1 + self.struct(t).size for t in r.types]
        for bucket in v:
            out.append(off.to_bytes(r.index_size, "little"))
            for ti, row in bucket:
                off += sizes[ti]
        out.append(off.to_bytes(r.index_size, "little"))
        return b"".join(out)

    def files(self, r, v):
        """{file name: bytes} for one data resource, without schemas"""
        d = {r.name: file_bytes(self.payload(r, v))}
        if r.kind == "multivector":
            d[r.name + "_index"] = file_bytes(self.index_payload(r, v))
        return d


def file_bytes(payload):
    return len(payload).to_bytes(8, "little") + payload + b"\0" * 8


# ---------------------------------------------------------------- generation
def gen_schema(seed, py_writable=False, subarchives=True, small=False):
    """A random schema.  py_writable: restrict to what the Python builder supports (no sub-archives)."""
    rng = random.Random("schema/%s" % (seed,))
    ns = "ns%d" % (seed % 100000 if isinstance(seed, int) else 0)
    enums, consts, structs = [], [], []
    for i in range(rng.randint(0, 2)):
        t = rng.choice(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"])
        full, sg = BASIC[t]
        width = rng.choice([None, 8, rng.randint(2, 8)]) if full == 8 else rng.randint(2, 8)
        w = width or full
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        pool = sorted(set([lo, hi, 0, 1] + [rng.randint(lo, hi) for _ in range(rng.randint(0, 4))]))
        pool = [p for p in pool if lo <= p <= hi and p > -(1 << 63)]
        rng.shuffle(pool)
        enums.append(Enum("E%d" % i, t, width, [("V%d" % k, v) for k, v in enumerate(pool)]))
    nstruct = rng.randint(2, 4)
    for i in range(nstruct):
        fields = []
        n = rng.choice([1, 2, 3, 4, 6, 9])
        ranged = (i == nstruct - 1) and rng.random() < 0.5
        for k in range(n):
            x = rng.random()
            if enums and x < 0.2:
                e = rng.choice(enums)
                f = Field("f%d" % k, e.type, e.width, enum=e.name)
            else:
                t = rng.choice(list(BASIC))
                full = BASIC[t][0]
                w = None if rng.random() < 0.4 else rng.randint(1 if not BASIC[t][1] else 2, full)
                f = Field("f%d" % k, t, w)
                if not ranged and rng.random() < 0.15 and t not in ("bool",):
                    lo, hi = f.limits()
                    v = rng.choice([lo, hi, 0])
                    if v <= -(1 << 63):
                        v = 0
                    cn = "INV_%d_%d" % (i, k)
                    consts.append((t, cn, v))
                    f.optional = cn
            fields.append(f)
        if ranged:
            f = Field("first", rng.choice(["u16", "u32", "u64"]), rng.choice([None, 9, 13]), range_="rng")
            fields.insert(rng.randint(0, len(fields)), f)
        structs.append(Struct("S%d" % i, fields))
    # a reference-capable struct
    plain = [s for s in structs if not s.has_range]
    archives = []

    def resources(depth):
        out = []
        n = rng.randint(2, 4 if small else 6)
        for k in range(n):
            kind = rng.choice(["instance", "vector", "vector", "multivector", "multivector", "raw_data"])
            opt = rng.random() < 0.35
            if kind == "vector":
                r = Resource("r%d" % k, kind, [rng.choice(structs).name], optional=opt)
            elif kind == "instance":
                r = Resource("r%d" % k, kind, [rng.choice(plain).name], optional=opt)
            elif kind == "multivector":
                ts = rng.sample(plain, rng.randint(1, len(plain)))
                r = Resource("r%d" % k, kind, [t.name for t in ts],
                             width=rng.choice([17, 24, 25, 32, 33, 40, 48, 57, 63, 64]), optional=opt)
            else:
                r = Resource("r%d" % k, kind, optional=opt)
            out.append(r)
        return out

    if subarchives and not py_writable:
        depth = rng.choice([0, 1, 1, 2])
        prev = None
        for d in range(depth):
            rs = resources(d)[:3]
            if prev:
                rs.append(Resource("sub", "archive", [prev], optional=rng.random() < 0.4))
            archives.append(Archive("Sub%d" % d, rs))
            prev = "Sub%d" % d
    else:
        prev = None
    rs = resources(0)
    if prev:
        rs.append(Resource("sub", "archive", [prev], optional=rng.random() < 0.4))
        if rng.random() < 0.3:
            rs.append(Resource("sub2", "archive", [prev], optional=True))
    if not any(not r.optional and r.kind != "archive" for r in rs):
        rs[0].optional = False
    archives.append(Archive("Arc", rs))
    # constants nothing refers to become part of every archive
    crng = random.Random("constants/%s" % (seed,))
    for k in range(crng.choice([0, 0, 0, 1, 3, 6])):
        t = crng.choice([x for x in BASIC if x != "bool"])
        full, sg = BASIC[t]
        v = crng.choice([0, 1, -1 if sg else 3, crng.getrandbits(full - 1), -crng.getrandbits(full - 2) if sg else (1 << full) - 1])
        consts.append((t, "%s_%d" % (crng.choice(["K", "MAX", "a"]), k), v))
    s = Schema(ns, consts, enums, structs, archives)
    decorate(s, random.Random("decorations/%s" % (seed,)))
    s.seed = seed
    return s


def decorate(s, rng):
    """references between resources (they limit the size of what they refer to) and groups of resources"""
    for a in s.archives:
        dst = [r for r in a.resources if r.kind in ("vector", "multivector", "raw_data")]
        for r in a.resources:
            if r.kind not in ("vector", "multivector", "instance") or rng.random() < 0.6:
                continue
            for _ in range(rng.choice([1, 1, 2, 4])):
                st = s.struct(rng.choice(r.types))
                fs = [f for f in st.fields if f.type[0] == "u" and not f.enum and (f.width >= 7 or rng.random() < 0.05)]
                if fs and dst:
                    ref = (st.name, rng.choice(fs).name, rng.choice(dst).name)
                    if ref not in r.refs:
                        r.refs.append(ref)
        if dst and rng.random() < 0.3:
            a.bound.append(("bound%d" % rng.randrange(3), [x.name for x in rng.sample(dst, rng.randint(1, len(dst)))]))


def fixed_schema():
    """A hand-written schema that has one of everything, used in every run."""
    e = Enum("Color", "i8", 5, [("RED", -3), ("GREEN", 0), ("BLUE", 15), ("LOW", -16)])
    eu = Enum("Kind", "u16", 8, [("A", 0), ("B", 131), ("C", 255)])
    pt = Struct("Point", [Field("x", "i32", 31), Field("flag", "bool"), Field("y", "i64", 64),
                          Field("color", "i8", 5, enum="Color"), Field("z", "u8", 3), Field("w", "u64", 61)])
    small = Struct("Small", [Field("a", "u8", 3)])
    word = Struct("Word", [Field("v", "u64")])
    opt = Struct("Opt", [Field("k", "u16", 8, enum="Kind"), Field("o", "u32", 17, optional="NO_REF"),
                         Field("s", "i16", 11)])
    rngs = Struct("Rng", [Field("pad", "u8", 5), Field("first", "u32", 29, range_="span"), Field("t", "i8", 7)])
    ref = Struct("Ref", [Field("r", "u8", 7), Field("q", "u64", 33)])
    sub = Archive("Inner", [Resource("blob", "raw_data"), Resource("points", "vector", ["Point"], optional=True)])
    root = Archive("Arc", [
        Resource("head", "instance", ["Point"]),
        Resource("points", "vector", ["Point"]),
        Resource("words", "vector", ["Word"], optional=True),
        Resource("tiny", "vector", ["Small"]),
        Resource("ranges", "vector", ["Rng"], optional=True),
        Resource("refs", "vector", ["Ref"], refs=[("Ref", "r", "tiny")]),
        Resource("multi", "multivector", ["Point", "Small", "Opt"], width=33),
        Resource("omulti", "multivector", ["Word"], width=24, optional=True),
        Resource("text", "raw_data"),
        Resource("otext", "raw_data", optional=True),
        Resource("oinst", "instance", ["Opt"], optional=True),
        Resource("inner", "archive", ["Inner"]),
        Resource("oinner", "archive", ["Inner"], optional=True),
    ])
    s = Schema("fixone", [("u32", "NO_REF", 131071), ("i16", "FREE", -7)], [e, eu],
               [pt, small, word, opt, rngs, ref], [sub, root])
    s.seed = "fixed"
    return s


def wide_schema():
    """structures so large that few of them fill the internal buffers"""
    w = Struct("W", [Field("f%d" % i, "u64" if i % 3 else "i64") for i in range(40)])
    odd = Struct("Odd", [Field("x", "u64", 63), Field("y", "i32", 17), Field("z", "bool"), Field("t", "i8", 6)])
    b1 = Struct("B", [Field("a", "u8")])
    root = Archive("Arc", [
        Resource("v", "vector", ["W"]),
        Resource("w", "vector", ["Odd"], optional=True),
        Resource("m", "multivector", ["W", "Odd", "B"], width=40),
        Resource("n", "multivector", ["B", "W"], width=32, optional=True),
        Resource("r", "raw_data", optional=True),
    ])
    s = Schema("wide", [], [], [w, odd, b1], [root])
    s.seed = "wide"
    return s


def bits_schema(part):
    """a field of every width at every offset within a byte: unsigned (bits0), signed (bits1)"""
    rng = random.Random("bits%d" % part)
    structs = []
    for signed in (bool(part),):
        left = {(w, o) for w in range(2 if signed else 1, 65) for o in range(8)}
        while left:
            fields, off, n = [], 0, rng.randint(8, 24)
            while len(fields) < n and left:
                c = sorted(x for x in left if x[1] == off % 8)
                if c:
                    w = rng.choice(c)[0]
                    left.discard((w, off % 8))
                    kinds = [t for t, (b, s) in BASIC.items() if s == signed and b >= w and (t != "bool" or w == 1)]
                    fields.append(Field("f%d" % len(fields), rng.choice(kinds[:2] + kinds[-1:]), w))
                else:
                    w = (sorted(left)[0][1] - off) % 8
                    fields.append(Field("f%d" % len(fields), "u8", w))
                off += w
            structs.append(Struct("S%d" % len(structs), fields))
    res = [Resource("v%d" % i, "vector", [s.name], optional=True) for i, s in enumerate(structs)]
    res.append(Resource("m", "multivector", [s.name for s in structs[::9]], width=33, optional=True))
    s = Schema("bits%d" % part, [], [], structs, [Archive("Arc", res)])
    s.seed = "bits%d" % part
    return s


def py_fixed_schema():
    s = fixed_schema()
    root = s.archives[-1]
    root.resources = [r for r in root.resources if r.kind != "archive"]
    s.archives = [root]
    s.ns = "fix.py"
    return s


def multi_schema(seed):
    """archives whose files do not collide, so that several can live in one directory; sometimes in a nested namespace"""
    s = gen_schema(seed)
    rng = random.Random("multi/%s" % seed)
    s.ns = rng.choice(["ns%d", "top.ns%d", "a.b.ns%d"]) % seed
    suffix = rng.choice(["", "%d" % seed, "X%d" % seed]) if seed % 2 else "%d" % seed
    ren = {a.name: a.name + suffix for a in s.archives}
    for a in s.archives:
        a.name = ren[a.name]
        names = {r.name: "%s_%s" % (a.name.lower(), r.name) for r in a.resources}
        a.bound = [("%s_%s" % (a.name.lower(), n), [names[x] for x in rs]) for n, rs in a.bound]
        for r in a.resources:
            r.name = names[r.name]
            r.refs = [(x, y, names[z]) for x, y, z in r.refs]
            if r.kind == "archive":
                r.types = [ren[t] for t in r.types]
    s.seed = "multi%s" % seed
    return s


def rust_schema(seed):
    """resource names that differ between archives: the Rust types of multivectors are named after them"""
    s = gen_schema("rs%s" % seed)
    s.ns = ["rs%d", "top.rs%d"][int(seed) % 2] % int(seed)
    for a in s.archives:
        names = {r.name: "%s_%s" % (a.name.lower(), r.name) for r in a.resources}
        a.bound = [("%s_%s" % (a.name.lower(), n), [names[x] for x in rs]) for n, rs in a.bound]
        for r in a.resources:
            r.name = names[r.name]
            r.refs = [(x, y, names[z]) for x, y, z in r.refs]
    s.seed = "rust%s" % seed
    return s


# ---------------------------------------------------------------- values
def rand_field(rng, f):
    lo, hi = f.limits()
    x = rng.random()
    if x < 0.2:
        return lo
    if x < 0.4:
        return hi
    if x < 0.5:
        return 0
    if x < 0.6:
        return min(hi, 1)
    return rng.randint(lo, hi)


def rand_row(rng, s):
    return tuple(rand_field(rng, f) for f in s.fields)


def rand_value(rng, schema, r, scale=None):
    """A random value for a data resource."""
    n = scale if scale is not None else rng.choice([0, 1, 1, 2, 3, 5, 9, 30])
    if r.kind == "instance":
        return rand_row(rng, schema.struct(r.types[0]))
    if r.kind == "vector":
        return [rand_row(rng, schema.struct(r.types[0])) for _ in range(n)]
    if r.kind == "raw_data":
        k = rng.choice([0, 1, 7, 8, 9, 16, 100, 511, 512, 513, 4096, 8176, 8184, 8192, 20000]) if scale is None else n
        return rng.randbytes(k)
    out = []
    for _ in range(n):
        b = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            ti = rng.randrange(len(r.types))
            b.append((ti, rand_row(rng, schema.struct(r.types[ti]))))
        out.append(b)
    return out
