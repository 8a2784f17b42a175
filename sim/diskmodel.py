"""What an archive stored as a set of files must look like to a reader: derived from the bytes alone.

Files are {path relative to the archive root: bytes}; directories are the prefixes of these paths plus `dirs`.
Used with damaged archives, so every rule of the format is spelled out here: a resource is available if its
data and schema file exist and are not empty, the schema text is the expected one, and the size header is
the file length minus header and padding.
"""
from . import pylib
from .cppdrv import dump_text
from .cppmodel import Model, count, resource_files


class Undecodable(Exception):
    """content this model gives no meaning to (scenario is not usable)"""


def archive_files(schema, arch, vals, prefix=""):
    out = {prefix + arch.name + ".archive": b"\0" * 16,
           prefix + arch.name + ".archive.schema": pylib.cls(schema, arch.name).schema().encode()}
    for r in arch.resources:
        if r.name not in vals:
            continue
        if r.kind == "archive":
            out.update(archive_files(schema, schema.archive(r.types[0]), vals[r.name], prefix + r.name + "/"))
        else:
            out.update({prefix + k: v for k, v in resource_files(schema, arch, r, vals[r.name]).items()})
    return out


class Disk:
    def __init__(self, files, dirs=()):
        self.files = files
        self.dirs = set(dirs)
        for f in files:
            p = f
            while "/" in p:
                p = p.rsplit("/", 1)[0]
                self.dirs.add(p)

    def payload(self, name, text):
        """payload of a stored resource or None"""
        data, schema = self.files.get(name), self.files.get(name + ".schema")
        if not data or not schema or schema != text.encode():
            return None
        if len(data) < 16:
            return None
        if int.from_bytes(data[:8], "little") + 16 != len(data):
            return None
        return data[8:-8]


def decode(schema, r, data, index):
    if r.kind == "raw_data":
        return data
    if r.kind == "instance":
        s = schema.struct(r.types[0])
        return s.unpack(data) if len(data) >= s.size else None
    if r.kind == "vector":
        s = schema.struct(r.types[0])
        return [s.unpack(data[i * s.size:]) for i in range(len(data) // s.size)]
    w = r.index_size
    offs = [int.from_bytes(index[i * w:i * w + w], "little") for i in range(len(index) // w)]
    out = []
    for a, b in zip(offs, offs[1:]):
        if not a <= b <= len(data):
            raise Undecodable()
        bucket = []
        while a < b:
            ti = data[a]
            if ti >= len(r.types):
                raise Undecodable()
            s = schema.struct(r.types[ti])
            if a + 1 + s.size > b:
                raise Undecodable()
            bucket.append((ti, s.unpack(data[a + 1:a + 1 + s.size])))
            a += 1 + s.size
        out.append(bucket)
    return out


def resource_value(schema, arch, r, disk, prefix):
    """value a reader must show, or None when the resource is not available"""
    text = pylib.cls(schema, arch.name).resource_schema(r.name)
    data = disk.payload(prefix + r.name, text)
    index = b""
    if r.kind == "multivector":
        index = disk.payload(prefix + r.name + "_index", "index(%s)" % text)
        if index is None:
            return None
    if data is None:
        return None
    return decode(schema, r, data, index)


def cpp_expect(schema, arch, disk, prefix=""):
    """(R, A) as parse_dump gives them for an archive opened at prefix"""
    return _cpp(schema, arch, disk, prefix, "")


def _closed(schema, arch, p):
    R, A = {}, {p: "closed"}
    for r in arch.resources:
        if r.optional:
            R[p + r.name] = "absent"
        elif r.kind == "archive":
            a, b = _closed(schema, schema.archive(r.types[0]), p + r.name + "/")
            R.update(a)
            A.update(b)
        else:
            R[p + r.name] = "invalid"
    return R, A


def _cpp(schema, arch, disk, prefix, p):
    R, A = {}, {}
    ok = disk.payload(prefix + arch.name + ".archive", pylib.cls(schema, arch.name).schema()) is not None
    for r in arch.resources:
        n = p + r.name
        if r.kind == "archive":
            sub = schema.archive(r.types[0])
            there = (prefix + r.name) in disk.dirs
            a, b = _cpp(schema, sub, disk, prefix + r.name + "/", n + "/") if there else ({}, {})
            if b.get(n + "/") == "open":
                R.update(a)
                A.update(b)
            elif r.optional:
                R[n] = "absent"
            else:
                ok = False
                a, b = _closed(schema, sub, n + "/")
                R.update(a)
                A.update(b)
            continue
        v = resource_value(schema, arch, r, disk, prefix)
        if v is None:
            R[n] = "absent" if r.optional else "invalid"
            ok = ok and r.optional
            continue
        R[n] = dump_text(schema, r, v)
        lim = Model.limit(schema, arch, r)
        if lim is not None and int(R[n].split(" ")[1]) > lim:
            ok = False
    A[p] = "open" if ok else "closed"
    return R, A


def mandatory_missing(schema, arch, R, A, p=""):
    """path of a mandatory resource that a dump shows as not available, else None"""
    for r in arch.resources:
        if r.optional:
            continue
        n = p + r.name
        if r.kind == "archive":
            if A.get(n + "/") != "open":
                return n
        elif R.get(n) in ("invalid", "absent", None):
            return n
    return None


# ---------------------------------------------------------------- damage
def names_of(schema, arch, vals, prefix=""):
    """[(prefix, archive, resource)] for everything stored"""
    out = []
    for r in arch.resources:
        if r.name in vals:
            out.append((prefix, arch, r))
            if r.kind == "archive":
                out += names_of(schema, schema.archive(r.types[0]), vals[r.name], prefix + r.name + "/")
    return out


def rand_damage(rng, schema, arch, vals, files):
    """one random damage: [op, path, args...]"""
    paths = sorted(files)
    x = rng.random()
    f = rng.choice(paths)
    n = len(files[f])
    if x < 0.08:
        return ["del", f]
    if x < 0.16:
        return ["trunc", f, rng.choice([0, 1, 7, 8, 15, 16, 17, max(0, n - 1), max(0, n - 8), rng.randint(0, n)])]
    if x < 0.22:
        return ["ext", f, rng.choice([1, 7, 8, 16, 100])]
    if x < 0.30:
        return ["flip", f, rng.randint(0, min(7, max(0, n - 1))), 1 << rng.randint(0, 7)]
    if x < 0.36:
        return ["flip", f, rng.randint(0, max(0, n - 1)), 1 << rng.randint(0, 7)]
    if x < 0.46:
        s = rng.choice([p for p in paths if p.endswith(".schema")])
        m = len(files[s])
        return rng.choice([["flip", s, rng.randint(0, m - 1), 1 << rng.randint(0, 6)], ["ext", s, 1], ["trunc", s, m - 1],
                           ["app", s, rng.choice(["\n", " ", "\0", "x"])], ["cut", s, rng.randint(0, m - 1)],
                           ["dup", s, rng.randint(0, m - 1)], ["crlf", s]])
    if x < 0.54:
        g = rng.choice(paths)
        return ["copy", f, g]
    if x < 0.58:
        return ["mkdir", f]
    rs = [(p, a, r) for p, a, r in names_of(schema, arch, vals) if r.kind in ("vector", "instance", "raw_data", "multivector")]
    if x < 0.64 or not rs:
        subs = [p + r.name for p, a, r in names_of(schema, arch, vals) if r.kind == "archive"]
        if subs and rng.random() < 0.6:
            return ["rmdir", rng.choice(subs)]
        return ["extra", "unrelated%d" % rng.randint(0, 3), rng.randint(0, 30)]
    p, a, r = rng.choice(rs)
    fn = p + r.name + ("_index" if r.kind == "multivector" and rng.random() < 0.5 else "")
    lim = Model.limit(schema, a, r)
    m = len(files[fn]) - 16
    if lim is not None and lim <= 40000 and rng.random() < 0.6 and r.kind == "vector":
        st = schema.struct(r.types[0])
        return ["resize", fn, st.size * (lim + rng.randint(-1, 2) + (1 if st.has_range else 0))]
    st = schema.struct(r.types[0]).size if r.kind in ("vector", "instance") else 1
    return ["resize", fn, max(0, rng.choice([m - 1, m + 1, m - st, m + st, 0, st - 1, m - 8, m + 8, m + 16, rng.randint(0, max(1, m))]))]


def apply_damage(files, dirs, d):
    """files, dirs: modified in place"""
    op, f = d[0], d[1]
    if op == "extra":
        files[f] = b"\1" * d[2]
        return
    if op == "rmdir":
        for k in [k for k in files if k.startswith(f + "/")]:
            del files[k]
        for k in [k for k in dirs if k == f or k.startswith(f + "/")]:
            dirs.discard(k)
        return
    if f not in files:
        return
    b = files[f]
    if op == "del":
        del files[f]
    elif op == "trunc":
        files[f] = b[:d[2]]
    elif op == "ext":
        files[f] = b + b"\0" * d[2]
    elif op == "app":
        files[f] = b + d[2].encode()
    elif op == "cut" and d[2] < len(b):
        files[f] = b[:d[2]] + b[d[2] + 1:]
    elif op == "dup" and d[2] < len(b):
        files[f] = b[:d[2] + 1] + b[d[2]:]
    elif op == "crlf":
        files[f] = b.replace(b"\n", b"\r\n", 1) if b"\n" in b else b + b"\r"
    elif op == "flip" and d[2] < len(b):
        files[f] = b[:d[2]] + bytes([b[d[2]] ^ d[3]]) + b[d[2] + 1:]
    elif op == "copy" and d[2] in files:
        files[f] = files[d[2]]
    elif op == "mkdir":
        del files[f]
        dirs.add(f)
    elif op == "resize":
        body = b[8:-8] if len(b) >= 16 else b""
        n = d[2]
        if len(body) < n:
            unit = body or b"\x01"
            body = (unit * (n // len(unit) + 1))[:n]
        files[f] = n.to_bytes(8, "little") + body[:n] + b"\0" * 8


def dirs_of(files):
    out = set()
    for f in files:
        while "/" in f:
            f = f.rsplit("/", 1)[0]
            out.add(f)
    return out


def write_tree(root, files, dirs):
    import os
    os.makedirs(root, exist_ok=True)
    for d in sorted(dirs):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for n, b in files.items():
        os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
        with open(os.path.join(root, n), "wb") as f:
            f.write(b)
