"""P31: every way of looking at an archive opened by the Rust library shows what was stored, for as long as it may be looked at."""
import os
import random
import zlib

from . import diskmodel as dm
from .cppdrv import _le, dump_text, row_text, view_rows
from .cppviews import P30
from .py_write import EACCES, EIO, EMFILE
from .rustcheck import RustMixin
from .rustread import expect, with_sentinels


class Handle:
    def __init__(self, path, arch, vals):
        self.path, self.arch, self.vals = path, arch, vals


class Held:
    """what is kept: a part lo..hi of a resource, of an archive object that must still be there"""

    def __init__(self, h, r, v, lo, hi, s=None):
        self.h, self.r, self.v, self.lo, self.hi, self.s = h, r, v, lo, hi, s
        self.kind = r.kind

    def part(self, lo, hi):
        return Held(self.h, self.r, self.v, self.lo + lo, self.lo + hi, self.s)

    def __len__(self):
        return self.hi - self.lo


class Views:
    def __init__(self, schema, ai, vals, files=None):
        self.schema, self.arch, self.vals, self.files = schema, schema.archives[ai], vals, files
        self.handles, self.held, self.cur = {}, {}, {}

    def view(self, vid):
        x = self.held.get(vid)
        return x if x is not None and any(h is x.h for h in self.handles.values()) else None

    def cursor(self, cid):
        c = self.cur.get(cid)
        return c if c is not None and any(h is c["x"].h for h in self.handles.values()) else None

    # ------------------------------------------------------------ texts
    def debug(self, s, row):
        o = []
        for f, v in zip(s.fields, row):
            if f.enum:
                e = next(e for e in self.schema.enums if e.name == f.enum)
                n = next((n for n, x in e.values if x == v), None)
                n = n if n is not None else "UNKNOWN_VALUE_" + str(v).replace("-", "MINUS_")
                t = "".join(p.title() for p in n.split("_"))
            elif f.type == "bool":
                t = "true" if v else "false"
            elif f.optional:
                t = "None" if v == next(x for _, n, x in self.schema.consts if n == f.optional) else "Some(%d)" % v
            else:
                t = str(v)
            o.append("%s: %s" % (f.name, t))
        return "%s { %s }" % (s.name, ", ".join(o))

    def bucket_debug(self, r, els):
        return "[%s]" % ", ".join(self.debug(self.schema.struct(r.types[t]), row) for t, row in els)

    def multi_debug(self, name, r, v):
        return "%s { len: %d, data: [%s]%s }" % (name, len(v), ", ".join("(%d, %s)" % (i, self.bucket_debug(r, b)) for i, b in enumerate(v[:10])), "" if len(v) <= 10 else "...")

    def archive_debug(self, arch, vals):
        o = []
        for r in arch.resources:
            if r.name not in vals:
                o.append("%s: None" % r.name)
                continue
            v = vals[r.name]
            if r.kind == "vector":
                s = self.schema.struct(r.types[0])
                t = "[%s]" % ", ".join(self.debug(s, x) for x in (v[:-1] if s.has_range else v))
            elif r.kind == "instance":
                t = self.debug(self.schema.struct(r.types[0]), v)
            elif r.kind == "raw_data":
                t = "RawData { data: [%s] }" % ", ".join(str(b) for b in v)
            elif r.kind == "multivector":
                t = self.multi_debug("MultiArrayView", r, v)
            else:
                t = self.archive_debug(self.schema.archive(r.types[0]), v)
            o.append("%s: %s" % (r.name, "Some(%s)" % t if r.optional else t))
        return "%s { %s }" % (arch.name, ", ".join(o)) if o else arch.name

    def bucket(self, els):
        return "bucket" + "".join(" %d:%s" % (t, row_text(row)) for t, row in els)

    # ------------------------------------------------------------ one command -> expected answer, or None: cannot be used here
    def do(self, c):
        t = c.split(" ")
        f = getattr(self, "c_" + t[0], None)
        return f(t) if f else ""

    def c_o(self, t):
        self.handles[t[1]] = Handle("", self.arch, self.vals)
        return "open"

    def c_ax(self, t):
        return "ok" if self.handles.pop(t[1], None) else None

    def c_ds(self, t):
        h = self.handles.get(t[1])
        return None if h is None else "text " + self.archive_debug(h.arch, h.vals)

    def c_as(self, t):
        h = self.handles.get(t[2])
        if not h or int(t[3]) >= len(h.arch.resources):
            return None
        r = h.arch.resources[int(t[3])]
        if r.kind != "archive":
            return None
        if r.name not in h.vals:
            return "absent"
        self.handles[t[1]] = Handle(h.path + r.name + "/", self.schema.archive(r.types[0]), h.vals[r.name])
        return "open"

    def c_acl(self, t):
        h = self.handles.get(t[2])
        if not h:
            return None
        self.handles[t[1]] = Handle(h.path, h.arch, h.vals)
        return "open"

    def c_vk(self, t):
        h = self.handles.get(t[2])
        if not h or int(t[3]) >= len(h.arch.resources):
            return None
        r = h.arch.resources[int(t[3])]
        if r.kind == "archive":
            return None
        if r.name not in h.vals:
            return "absent"
        v = h.vals[r.name]
        s = self.schema.struct(r.types[0]) if r.kind in ("vector", "instance") else None
        n = 1 if r.kind == "instance" else len(v) - 1 if s and s.has_range else len(v)
        self.held[t[1]] = Held(h, r, v, 0, n, s)
        return "ok"

    def c_vd(self, t):
        x = self.view(t[2])
        if x is None:
            return None
        how, n = t[3], len(x)
        p = int(t[4]) if len(t) > 4 else 0
        lo, hi = {"cp": (0, n), "sl": (p, int(t[5]) if len(t) > 5 else 0), "sf": (p, n), "st": (0, p), "si": (0, p + 1), "sa": (0, n)}[how]
        if x.kind == "instance" and how != "cp" or x.kind == "raw_data" and how not in ("cp", "sl") or x.kind == "vector" and how in ("si", "sa"):
            return None
        if not 0 <= lo <= hi <= n:
            return None
        self.held[t[1]] = x.part(lo, hi)
        return "ok"

    def c_vl(self, t):
        x = self.view(t[1])
        return None if x is None else getattr(self, "look_" + x.kind)(x, t[2], *[int(a) for a in t[3:]])

    def look_vector(self, x, how, p=0, q=0):
        s, n = x.s, len(x)
        own = x.v[x.lo:x.hi]
        rows = view_rows(s, x.v[x.lo:x.hi + 1]) if s.has_range else own
        if how == "n":
            return "n %d %s" % (n, str(not n).lower())
        if how == "by":
            if self.files is None:
                return "?"
            b = self.files[x.h.path + x.r.name][8:][x.lo * s.size:(x.hi + (1 if s.has_range else 0)) * s.size]
            return "bytes %d %d true" % (len(b), zlib.crc32(b))
        if how == "all":
            return "vec %d %d" % (n, zlib.crc32(b"".join(_le(y) for y in rows))) + ("".join(" " + row_text(y) for y in rows) if n <= 3 else "")
        if how == "dba":
            return "dbg [%s]" % ", ".join(self.debug(s, y) for y in own)
        if p >= n or q >= n:
            return None
        if how == "at":
            return "el " + row_text(rows[p])
        if how == "dbg":
            return "dbg " + self.debug(s, own[p])
        e = list(own[p]) == list(own[q])
        return "eq %d%d" % (e, not e) if how == "eq" else None

    def look_instance(self, x, how, p=0, q=0):
        return {"dbg": "dbg " + self.debug(x.s, x.v), "all": "el " + row_text(x.v)}.get(how)

    def look_raw_data(self, x, how, p=0, q=0):
        v = bytes(x.v[x.lo:x.hi])
        if how == "n":
            return "n %d %s" % (len(v), str(not v).lower())
        if how == "all":
            return "bytes %d" % zlib.crc32(v)
        if p > len(v):
            return None
        if how == "by":
            return "bytes %d" % zlib.crc32(v[p:q]) if p <= q <= len(v) else None
        b = v[p:].split(b"\0", 1)[0]
        if how == "sr":
            return "bytes %d %d" % (len(b), zlib.crc32(b))
        if how == "su":
            try:
                b.decode("utf-8")
            except UnicodeDecodeError as e:
                return "utf8 %d" % e.start
            return "str %d %d" % (len(b), zlib.crc32(b))
        b = b.decode("utf-8", "replace").encode()
        return "str %d %d" % (len(b), zlib.crc32(b)) if how == "lo" else None

    def look_multivector(self, x, how, p=0, q=0):
        r, v = x.r, x.v[x.lo:x.hi]
        if how == "n":
            return "n %d %s %d" % (len(v), str(not v).lower(), len(v))
        if how in ("all", "in"):
            return dump_text(self.schema, r, v)
        if how == "rev":
            return dump_text(self.schema, r, v[::-1])
        if how in ("dbg", "id"):
            return "dbg " + self.multi_debug("MultiArrayView" if how == "dbg" else "MultiArrayViewIter", r, v)
        if p >= len(v) or q >= len(v):
            return None
        if how == "at":
            return self.bucket(v[p])
        if how == "cn":
            return "count %d" % len(v[p])
        if how == "ad":
            return "dbg MultiArrayViewItemIter { data: %s }" % self.bucket_debug(r, v[p])
        e = [(k, list(y)) for k, y in v[p]] == [(k, list(y)) for k, y in v[q]]
        return "eq %d%d" % (e, not e) if how == "eq" else None

    def c_ik(self, t):
        x = self.view(t[2])
        if x is None or x.kind != "multivector":
            return None
        v = x.v[x.lo:x.hi]
        if t[3] == "at":
            if int(t[4]) >= len(v):
                return None
            v = v[int(t[4])]
        self.cur[t[1]] = dict(x=x, items=v, lo=0, hi=len(v), all=t[3] == "it")
        return "ok"

    def c_icp(self, t):
        c = self.cursor(t[2])
        if c is None:
            return None
        self.cur[t[1]] = dict(c)
        return "ok"

    def c_il(self, t):
        c = self.cursor(t[1])
        if c is None:
            return None
        left = c["items"][c["lo"]:c["hi"]]
        how, p = t[2], int(t[3]) if len(t) > 3 else 0
        if how == "l":
            return "len %d" % len(left)
        if how == "dbg":
            return "dbg " + (self.multi_debug("MultiArrayViewIter", c["x"].r, left) if c["all"] else "MultiArrayViewItemIter { data: %s }" % self.bucket_debug(c["x"].r, left))
        if not c["all"] and how != "n":
            return None
        if how in ("n", "k"):
            x = left[p] if p < len(left) else None
            c["lo"] = min(c["hi"], c["lo"] + p + 1)
        else:
            x = left[-1 - p] if p < len(left) else None
            c["hi"] = max(c["lo"], c["hi"] - p - 1)
        return "end" if x is None else self.bucket(x if c["all"] else [x])


def rand_cmd(rng, V, n):
    hs, vs = sorted(V.handles), sorted(v for v in V.held if V.view(v))
    cs = sorted(c for c in V.cur if V.cursor(c))
    x = rng.random()
    if not hs:
        return "o %d @name 0 0" % n
    if x < 0.06:
        return "acl %d %s" % (n, rng.choice(hs))
    if x < 0.14:
        h = rng.choice(hs)
        subs = [i for i, r in enumerate(V.handles[h].arch.resources) if r.kind == "archive"]
        if subs:
            return "as %d %s %d" % (n, h, rng.choice(subs))
    if x < 0.18 and len(hs) > 1:
        return "ax " + rng.choice(hs)
    if x < 0.36 or not vs:
        h = rng.choice(hs)
        rs = [i for i, r in enumerate(V.handles[h].arch.resources) if r.kind != "archive"]
        return "vk %d %s %d" % (n, h, rng.choice(rs)) if rs else "d " + h
    if x < 0.39:
        return rng.choice(["d ", "ds "]) + rng.choice(hs)
    v = rng.choice(vs)
    a = V.held[v]
    m = len(a)
    some = lambda: rng.choice([0, 0, m, m // 2, rng.randint(0, m), max(0, m - 1), min(1, m)])
    if x < 0.55:
        p, q = sorted([some(), some()])
        how = rng.choice(["cp", "sl", "sl", "sf", "st", "si", "sa"])
        if a.kind == "multivector" and m > 9 and rng.random() < 0.4:  # as many buckets as are shown when printed, or one more
            how, p = "sl", rng.randint(0, m - 10)
            q = min(m, p + rng.choice([10, 10, 11]))
        return "vd %d %s %s" % (n, v, how) + (" %d" % (p if how != "si" else max(0, p - 1)) if how not in ("cp", "sa") else "") + (" %d" % q if how == "sl" else "")
    if x < 0.8 or not cs:
        i, j = (rng.choice([0, m - 1, rng.randrange(m)]) if m else 0 for _ in "ab")
        if a.kind == "vector":
            how = rng.choice(["n", "by", "all", "at", "at", "eq", "dbg", "dba"])
            if how == "dba" and m > 60:
                how = "all"
            return "vl %s %s" % (v, how) + (" %d" % i if how in ("at", "eq", "dbg") else "") + (" %d" % rng.choice([i, j, rng.randrange(m) if m else 0]) if how == "eq" else "")
        if a.kind == "instance":
            return "vl %s %s" % (v, rng.choice(["dbg", "all"]))
        if a.kind == "raw_data":
            how = rng.choice(["n", "all", "by", "sr", "sr", "su", "lo"])
            p = some()
            return "vl %s %s" % (v, how) + (" %d" % p if how not in ("n", "all") else "") + (" %d" % rng.randint(p, m) if how == "by" else "")
        if rng.random() < 0.35:
            return "ik %d %s " % (n, v) + rng.choice(["it", "at %d" % i])
        how = rng.choice(["n", "all", "in", "rev", "at", "at", "cn", "eq", "ad", "id", "dbg"] + ["dbg", "id"] * (m in (9, 10, 11)))
        return "vl %s %s" % (v, how) + (" %d" % i if how in ("at", "cn", "eq", "ad") else "") + (" %d" % rng.choice([i, j]) if how == "eq" else "")
    c = rng.choice(cs)
    if rng.random() < 0.12:
        return "icp %d %s" % (n, c)
    how = rng.choice(["n", "n", "n", "b", "b", "k", "kb", "l", "dbg"])
    return "il %s %s" % (c, how) + (" %d" % rng.choice([0, 1, 2, 5]) if how in ("k", "kb") else "")


class P31(RustMixin, P30):
    prop = "P31"
    preload = False
    rule = ("one run = an archive in a directory, a TAR file or memory, opened by the real Rust reader; then a seeded history of looks: views kept, cloned and sliced again and again, iterators of "
            "multivectors and of their items moved from both ends, cloned and used after their end, elements compared, printed and turned into bytes, substrings of raw data, archives and "
            "sub-archives cloned and dropped, its files deleted, renamed and replaced and every operation failing meanwhile; every answer is compared with lists of the stored values; "
            "non-trivial = at least one slice, iterator or cloned archive")

    def vals(self, sc, k):
        schema = self.schemas[sc["schema"]]
        return with_sentinels(schema, schema.archives[sc["ai"]], P30.vals(self, sc, k))

    new_views = staticmethod(Views)
    new_cmd = staticmethod(rand_cmd)

    def shown(self, schema, arch, files):
        return expect(schema, arch, dm.Disk(files))
