"""Driving the real Python library: building, opening and reading archives."""
import hashlib
import os
import types

from . import common
from .model import bits_schema, gen_schema, fixed_schema, multi_schema, py_fixed_schema, rand_value, rust_schema, wide_schema

_mods = {}


def schema_by_id(sid):
    """schema ids: "fixed", "pyfixed", ["rnd", seed, py_writable]"""
    if sid == "fixed":
        return fixed_schema()
    if sid == "wide":
        return wide_schema()
    if sid in ("bits0", "bits1"):
        return bits_schema(int(sid[4]))
    if sid == "pyfixed":
        return py_fixed_schema()
    if sid[0] == "rs":
        return rust_schema(sid[1])
    if sid[0] == "multi":
        return multi_schema(sid[1])
    return gen_schema(sid[1], py_writable=bool(sid[2]), small=len(sid) > 3 and bool(sid[3]))


_gen_hash = None


def gen_hash():
    global _gen_hash
    if _gen_hash is None:
        _gen_hash = common.tree_hash(os.path.join(common.REPO, "flatdata-generator"), exts=(".py", ".jinja2"))
    return _gen_hash


def rendered(schema, target="py"):
    """generated code for a schema, from the current tree (cached by the hash of the generator sources)"""
    text = schema if isinstance(schema, str) else schema.text()
    from flatdata.generator.engine import Engine
    return _cached(text, target, lambda: Engine(text).render(target))


def _cached(text, target, make):
    key = hashlib.sha256((gen_hash() + target + text).encode()).hexdigest()[:24]
    path = os.path.join(common.BUILD, "gen-%s.%s" % (key, target))
    if os.path.exists(path):
        with open(path) as f:
            return f.read()
    code = make()
    os.makedirs(common.BUILD, exist_ok=True)
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "w") as f:
        f.write(code)
    os.replace(tmp, path)
    return code


def memo_engine():
    """let the generator run once per schema text and target; for checks in which rendering is not what is studied"""
    from flatdata.generator.engine import Engine
    orig = Engine.render
    if getattr(orig, "memo", False):
        return

    def render(self, name):
        return _cached(self.schema, name, lambda: orig(self, name))
    render.memo = True
    Engine.render = render


def module(schema):
    text = schema.text()
    if text not in _mods:
        m = types.ModuleType(schema.ns)
        exec(rendered(schema), m.__dict__)
        _mods[text] = m
    return _mods[text]


def cls(schema, name, builder=False):
    return getattr(module(schema), "%s_%s%s" % (schema.ns.replace(".", "_"), name, "Builder" if builder else ""))


def to_py(schema, r, v):
    """our value -> what the Python builder takes"""
    pre = schema.ns.replace(".", "_") + "_"
    if r.kind == "instance":
        return {f.name: x for f, x in zip(schema.struct(r.types[0]).fields, v)}
    if r.kind == "vector":
        fs = schema.struct(r.types[0]).fields
        return [{f.name: x for f, x in zip(fs, row)} for row in v]
    if r.kind == "raw_data":
        return v
    out = []
    for bucket in v:
        b = []
        for ti, row in bucket:
            s = schema.struct(r.types[ti])
            b.append({"name": pre + s.name, "attributes": {f.name: x for f, x in zip(s.fields, row)}})
        out.append(b)
    return out


def read_res(schema, r, res):
    """value of an opened resource in our representation"""
    if r.kind == "instance":
        return tuple(res[0].as_tuple())
    if r.kind == "vector":
        return [tuple(x.as_tuple()) for x in res]
    if r.kind == "raw_data":
        return bytes(res[0:len(res)])
    pre = schema.ns.replace(".", "_") + "_"
    names = {pre + t: i for i, t in reversed(list(enumerate(r.types)))}
    return [[(names[type(x).__name__], tuple(x.as_tuple())) for x in bucket] for bucket in res]


def norm(r, v):
    """comparable form of a value of ours"""
    if r.kind == "instance":
        return tuple(v)
    if r.kind == "vector":
        return [tuple(x) for x in v]
    if r.kind == "raw_data":
        return bytes(v)
    return [[(ti, tuple(row)) for ti, row in b] for b in v]


def values(schema, archive, seed, scale=None):
    import random
    rng = random.Random("values/%s" % seed)
    out = {}
    for r in archive.resources:
        if r.kind != "archive":
            out[r.name] = rand_value(rng, schema, r, scale)
    # respect reference limits so that archives are valid
    for r in archive.resources:
        for src, fld, dst in r.refs:
            f = next(f for f in schema.struct(src).fields if f.name == fld)
            lim = (1 << f.width) - 2
            if len(out.get(dst, ())) > lim:
                out[dst] = out[dst][:lim]
    return out


def expected_files(schema, archive, vals):
    """every file of the archive directory, {name: bytes}; schema texts come from the generated classes"""
    c = cls(schema, archive.name)
    sig = archive.name + ".archive"
    out = {sig: b"\0" * 16, sig + ".schema": c.schema().encode()}
    for r in archive.resources:
        if r.kind == "archive" or r.name not in vals:
            continue
        out.update(schema.files(r, vals[r.name]))
        text = c.resource_schema(r.name)
        out[r.name + ".schema"] = text.encode()
        if r.kind == "multivector":
            out[r.name + "_index.schema"] = ("index(%s)" % text).encode()
    return out


def res_files(r_name, kind):
    """names of the files that make up one resource"""
    fs = [r_name, r_name + ".schema"]
    if kind == "multivector":
        fs += [r_name + "_index", r_name + "_index.schema"]
    return fs


def write_dir(path, files):
    os.makedirs(path, exist_ok=True)
    for n, b in files.items():
        with open(os.path.join(path, n), "wb") as f:
            f.write(b)


def read_dir(path):
    out = {}
    for root, dn, fn in os.walk(path):
        for f in fn:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out
