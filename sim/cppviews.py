"""P30: every way of looking at an open C++ archive shows what was stored, for as long as it may be looked at."""
import os
import random
import shutil
import zlib

from . import diskmodel as dm, simlib
from .common import Result, Violation
from .cppcheck import CppCheck, Ids, archive_tasks, interleave, parse_log
from .cppdrv import _le, crash_text, dump_text, row_text, u64, view_rows
from .py_write import EACCES, EIO, EMFILE
from .simlib import A_ERRNO
from .snapshot import ALL, MUTATING, P16, plain_tar

ENV = ("!del", "!ren", "!rep", "!all")


class Arr:
    """a stored vector, or a part of one: visible elements lo..hi"""

    def __init__(self, tok, path, s, rows, lo, hi, base):
        self.tok, self.path, self.s, self.rows, self.lo, self.hi, self.base = tok, path, s, rows, lo, hi, base

    def __len__(self):
        return self.hi - self.lo

    def part(self, lo, hi):
        return Arr(self.tok, self.path, self.s, self.rows, lo, hi, False)


class Handle:
    """one opened archive object: which opening it shares, at which path, what it holds"""

    def __init__(self, tok, path, arch, vals):
        self.tok, self.path, self.arch, self.vals = tok, path, arch, vals


class Held:
    def __init__(self, tok, path, kind, r, v, arr=None):
        self.tok, self.path, self.kind, self.r, self.v, self.arr = tok, path, kind, r, v, arr


class Views:
    """the reference: lists, and who keeps what alive"""

    def __init__(self, schema, ai, vals):
        self.schema, self.arch, self.vals = schema, schema.archives[ai], vals
        self.handles, self.held, self.cur = {}, {}, {}
        self.ntok = 0
        self.forms = set()

    def alive(self, tok, path):
        return any(h.tok == tok and path.startswith(h.path) for h in self.handles.values())

    def view(self, vid):
        x = self.held.get(vid)
        return x if x is not None and self.alive(x.tok, x.path) else None

    # ------------------------------------------------------------ texts
    def el(self, s, row):
        return "el " + row_text(row)

    def ts(self, s, row):
        o = ["%s {" % s.name]
        for f, v in zip(s.fields, row):
            if f.enum:
                e = next(e for e in self.schema.enums if e.name == f.enum)
                n = next((n for n, x in e.values if x == v), None)
                v = "%s::%s" % (f.enum, n if n is not None else "UNKNOWN_VALUE_" + str(v).replace("-", "MINUS_"))
            o.append("    %s : %s," % (f.name, v))
        return "ts " + "~".join(o) + "~} Structure of size %d" % s.size

    def seen(self, a):
        """the elements of a part as a reader shows them"""
        if not a.s.has_range:
            return [list(r) for r in a.rows[a.lo:a.hi]]
        return view_rows(a.s, a.rows[a.lo:a.hi + 1])

    # ------------------------------------------------------------ one command -> expected answer, or None: cannot be used here
    def do(self, c):
        t = c.split(" ")
        f = getattr(self, "c_" + t[0], None)
        return f(t) if f else ""

    def c_o(self, t):
        self.ntok += 1
        self.handles[t[1]] = Handle(self.ntok, "", self.arch, self.vals)
        return "open"

    def c_ax(self, t):
        return "ok" if self.handles.pop(t[1], None) else None

    def c_as(self, t):
        h = self.handles.get(t[2])
        if not h or int(t[3]) >= len(h.arch.resources):
            return None
        r = h.arch.resources[int(t[3])]
        if r.kind != "archive":
            return None
        if r.name not in h.vals:
            return "absent"
        self.handles[t[1]] = Handle(h.tok, h.path + r.name + "/", self.schema.archive(r.types[0]), h.vals[r.name])
        return "open"

    def c_acl(self, t):
        h = self.handles.get(t[2])
        if not h:
            return None
        self.handles[t[1]] = Handle(h.tok, h.path, h.arch, h.vals)
        return "open"

    def c_amv(self, t):
        h = self.handles.get(t[2])
        if not h:
            return None
        self.handles[t[1]] = self.handles.pop(t[2])
        return "open"

    def c_aas(self, t):
        a, b = self.handles.get(t[1]), self.handles.get(t[2])
        if not a or not b or a.arch is not b.arch:
            return None
        self.handles[t[1]] = Handle(b.tok, b.path, b.arch, b.vals)
        return "open"

    def c_vk(self, t):
        h = self.handles.get(t[2])
        if not h or int(t[3]) >= len(h.arch.resources):
            return None
        r = h.arch.resources[int(t[3])]
        if r.kind == "archive":
            return None
        if r.name not in h.vals:
            return "absent"
        v = h.vals[r.name]
        arr = None
        if r.kind == "vector":
            s = self.schema.struct(r.types[0])
            n = len(v) - 1 if s.has_range and v else len(v)
            arr = Arr(h.tok, h.path + r.name, s, v, 0, n, True)
        self.held[t[1]] = Held(h.tok, h.path, r.kind, r, v, arr)
        return "ok"

    def c_vd(self, t):
        x = self.view(t[2])
        if x is None:
            return None
        h = t[3]
        if h == "cp":
            self.held[t[1]] = x
            return "ok"
        a = x.arr
        if a is None or (a.s.has_range and not a.rows):
            return None
        n, p = len(a), int(t[4])
        if h == "sl":
            lo, hi = p, p + int(t[5])
        elif h == "sp":
            lo, hi = p, int(t[5])
        elif h == "sb":
            lo, hi = 0, p
        elif h in ("sa", "sk"):
            lo, hi = p, n
        elif h == "sL":
            lo, hi = 0, n - p
        elif h == "be":
            lo, hi = p, n
            if a.s.has_range or not n:
                return None
        if not 0 <= lo <= hi <= n:
            return None
        self.held[t[1]] = Held(x.tok, x.path, x.kind, x.r, None, a.part(a.lo + lo, a.lo + hi))
        return "ok"

    def c_vl(self, t):
        x = self.view(t[1])
        if x is None:
            return None
        return getattr(self, "look_" + x.kind)(x, t[2], t)

    def look_vector(self, x, h, t):
        a = x.arr
        n, rows = len(a), self.seen(a)
        if h == "n":
            size = (len(a.rows) if a.base else n + (1 if a.s.has_range else 0)) * a.s.size
            return "n %d %d %d1 %s" % (n, size, not n, "Array of size: %d in %d bytes" % (n, size) if n else "Uninitialized Array")
        crc = zlib.crc32(b"".join(_le(y) for y in rows))
        if h == "all":
            return "vec %d %d" % (n, crc) + ("".join(" " + row_text(y) for y in rows) if n <= 3 else "")
        if h == "rev":
            return "rev %d %d" % (n, zlib.crc32(b"".join(_le(y) for y in reversed(rows))))
        if not n:
            return None
        if h in ("fr", "bk"):
            return self.el(a.s, rows[0 if h == "fr" else -1])
        i = int(t[3]) if len(t) > 3 else n
        if i >= n:
            return None
        own = [tuple(r) for r in a.rows[a.lo:a.hi]]
        if h == "at":
            return self.el(a.s, rows[i])
        if h == "ts":
            return self.ts(a.s, own[i])
        if h == "find":
            return "found %d %d" % (own.index(own[i]), sum(1 for r in own if r != own[i]))
        if h == "pp":
            return "found %d %d" % (i, n - i)
        if h == "eq":
            j = int(t[4])
            if j >= n:
                return None
            e = own[i] == own[j]
            return "eq %d%d 1" % (e, not e)
        return None

    def look_multivector(self, x, h, t):
        r, v = x.r, x.v
        if h == "n":
            n = len(v)
            return "n %d 1 MultiArray of size %d, with index: %s" % (n, n, "Array of size: %d in %d bytes" % (n, (n + 1) * r.index_size) if n else "Uninitialized Array")
        if h == "all":
            return dump_text(self.schema, r, v)
        if h not in ("b", "th", "o", "ov", "on"):
            return None
        i = int(t[3])
        if i >= len(v):
            return None
        els, stop = v[i], ""
        if h == "th":
            if int(t[4]) < len(els):
                els, stop = els[:int(t[4])], " stopped"
        elif h == "o":
            els = [e for e in els if e[0] == int(t[4]) % len(r.types)]
        elif h in ("ov", "on"):
            els = [e for e in els if e[0] in (0, len(r.types) - 1)]
        return "bucket" + "".join(" %d:%s" % (ti, row_text(row)) for ti, row in els) + stop

    def look_instance(self, x, h, t):
        s = self.schema.struct(x.r.types[0])
        if h == "all":
            return self.el(s, x.v)
        if h == "ts":
            return self.ts(s, x.v)
        return "n %d 1 %s" % (s.size, s.name) if h == "n" else None

    def look_raw_data(self, x, h, t):
        n = len(x.v)
        if h == "n":
            return "n %d %d 1 Raw data of size %d" % (n, n, n)
        if h == "by":
            a, b = int(t[3]), int(t[4])
            return "bytes %d" % zlib.crc32(x.v[a:b]) if a <= b <= n else None
        return "bytes %d" % zlib.crc32(x.v) if h == "all" else None

    # ------------------------------------------------------------ iterators
    def cursor(self, cid):
        c = self.cur.get(cid)
        return c if c is not None and self.alive(c["x"].tok, c["x"].path) else None

    def c_ik(self, t):
        x = self.view(t[2])
        if x is None or x.kind not in ("vector", "multivector"):
            return None
        if x.kind == "vector":
            if t[3] not in "be":
                return None
            self.cur[t[1]] = dict(x=x, at=x.arr.lo if t[3] == "b" else x.arr.hi, arr=x.arr)
            return "ok"
        if t[3] in "be" or int(t[4]) >= len(x.v):
            return None
        ti = int(t[3]) % len(x.r.types)
        self.cur[t[1]] = dict(x=x, at=0, rows=[row for k, row in x.v[int(t[4])] if k == ti], s=self.schema.struct(x.r.types[ti]), arr=None)
        return "ok"

    def c_icp(self, t):
        c = self.cursor(t[2])
        if c is None:
            return None
        self.cur[t[1]] = dict(c)
        return "ok"

    def total(self, c):
        a = c["arr"]
        return max(0, len(a.rows) - 1) if a.s.has_range else len(a.rows)

    def c_ip(self, t):
        c = self.cursor(t[1])
        if c is None:
            return None
        if c["arr"] is None:
            if t[2] not in "iI":
                return None
            c["at"] = min(len(c["rows"]), c["at"] + 1)
            return "ok"
        n = int(t[3]) if len(t) > 3 else 0
        to = c["at"] + {"i": 1, "I": 1, "d": -1, "D": -1, "+=": n, "+": n, "adv": n, "-=": -n, "-": -n}[t[2]]
        if not 0 <= to <= self.total(c):
            return None
        c["at"] = to
        return "ok"

    def c_il(self, t):
        c = self.cursor(t[1])
        if c is None:
            return None
        if c["arr"] is None:
            return self.el(c["s"], c["rows"][c["at"]]) if c["at"] < len(c["rows"]) else "end"
        k = c["at"] + (int(t[3]) if t[2] == "[" else 0)
        if not 0 <= k < self.total(c):
            return None
        a = c["arr"]
        row = list(a.rows[k]) if not a.s.has_range else view_rows(a.s, a.rows[k:k + 2])[0]
        return self.el(a.s, row) + (" " if t[2] == ">" else "")

    def c_ic(self, t):
        c, d = self.cursor(t[1]), self.cursor(t[2])
        if c is None or d is None or c["arr"] is None or d["arr"] is None:
            return None
        a, b = c["arr"], d["arr"]
        if (a.tok, a.path) != (b.tok, b.path):
            return None
        x, y = c["at"], d["at"]
        return "cmp %d%d%d%d%d%d %d %d" % (x == y, x != y, x < y, x <= y, x > y, x >= y, x - y, x - y)


def rand_cmd(rng, V, n):
    """a further look that makes sense now"""
    hs, vs = sorted(V.handles), sorted(v for v in V.held if V.view(v))
    cs = sorted(c for c in V.cur if V.cursor(c))
    x = rng.random()
    if not hs:
        return "o %d %s %d 0" % (n, "@name", 0)
    if x < 0.05:
        return "acl %d %s" % (n, rng.choice(hs))
    if x < 0.08:
        return "amv %d %s" % (n, rng.choice(hs))
    if x < 0.11:
        return "aas %s %s" % (rng.choice(hs), rng.choice(hs))
    if x < 0.17:
        h = rng.choice(hs)
        subs = [i for i, r in enumerate(V.handles[h].arch.resources) if r.kind == "archive"]
        if subs:
            return "as %d %s %d" % (n, h, rng.choice(subs))
    if x < 0.21 and len(hs) > 1:
        return "ax " + rng.choice(hs)
    if x < 0.36 or not vs:
        h = rng.choice(hs)
        rs = [i for i, r in enumerate(V.handles[h].arch.resources) if r.kind != "archive"]
        if rs:
            return "vk %d %s %d" % (n, h, rng.choice(rs))
        return "d " + h
    if x < 0.38:
        return rng.choice(["d ", "ds "]) + rng.choice(hs)
    if x < 0.55:
        v = rng.choice(vs)
        a = V.held[v].arr
        if a is None or rng.random() < 0.1:
            return "vd %d %s cp" % (n, v)
        m = len(a)
        p = rng.choice([0, 0, m, m // 2, rng.randint(0, m), max(0, m - 1), min(1, m)])
        h = rng.choice(["sl", "sp", "sb", "sa", "sk", "sL", "be"])
        if h == "sl":
            return "vd %d %s sl %d %d" % (n, v, p, rng.choice([0, m - p, rng.randint(0, m - p)]))
        if h == "sp":
            return "vd %d %s sp %d %d" % (n, v, p, rng.choice([p, m, rng.randint(p, m)]))
        return "vd %d %s %s %d" % (n, v, h, p)
    if x < 0.8 or not cs:
        v = rng.choice(vs)
        y = V.held[v]
        if rng.random() < 0.25:
            return "vl %s %s" % (v, rng.choice(["n", "all"]))
        if y.kind == "vector":
            m = len(y.arr)
            if not m:
                return "vl %s %s" % (v, rng.choice(["n", "all", "rev"]))
            i = rng.choice([0, m - 1, rng.randrange(m)])
            if rng.random() < 0.3:
                return "ik %d %s %s" % (n, v, rng.choice("be"))
            h = rng.choice(["rev", "fr", "bk", "at", "at", "ts", "find", "pp", "eq"])
            return "vl %s %s" % (v, h) + (" %d" % i if h in ("at", "ts", "find", "pp", "eq") else "") + (" %d" % rng.randrange(m) if h == "eq" else "")
        if y.kind == "multivector":
            if not y.v:
                return "vl %s all" % v
            i = rng.randrange(len(y.v))
            h = rng.choice(["b", "th", "o", "o", "ov", "on", "ik", "ik"])
            if h == "ik":
                return "ik %d %s %d %d" % (n, v, rng.randrange(len(y.r.types)), i)
            return "vl %s %s %d" % (v, h, i) + (" %d" % rng.choice([0, 1, 2, 5]) if h == "th" else " %d" % rng.randrange(len(y.r.types)) if h == "o" else "")
        if y.kind == "instance":
            return "vl %s ts" % v
        a = rng.randint(0, len(y.v))
        return "vl %s by %d %d" % (v, a, rng.randint(a, len(y.v)))
    c = rng.choice(cs)
    k = V.cur[c]
    if k["arr"] is None:
        return rng.choice(["ip %s i" % c, "ip %s I" % c, "il %s *" % c, "il %s *" % c])
    y = rng.random()
    m, at = V.total(k), k["at"]
    if y < 0.1:
        return "icp %d %s" % (n, c)
    if y < 0.3:
        near = [d for d in cs if V.cur[d]["arr"] is not None and (V.cur[d]["arr"].tok, V.cur[d]["arr"].path) == (k["arr"].tok, k["arr"].path)]
        return "ic %s %s" % (c, rng.choice(near))
    if y < 0.55:
        h = rng.choice("*>[")
        if m == 0 or (h != "[" and at >= m):
            return "ip %s d" % c
        return "il %s %s" % (c, h) + (" %d" % (rng.randrange(m) - at) if h == "[" else "")
    h = rng.choice(["i", "I", "d", "D", "+=", "+", "-=", "-", "adv"])
    if len(h) == 1 and h in "iIdD":
        return "ip %s %s" % (c, h)
    to = rng.randint(0, m)
    return "ip %s %s %d" % (c, h, at - to if h in ("-=", "-") else to - at)


class P30(P16):
    prop = "P30"
    level = "exploration"
    defines = ["-DDRV_VIEWS"]
    reducible = ("cmds",)
    real = CppCheck.real
    rule = ("one run = an archive in a directory, a TAR file or memory, opened by the real C++ reader; then a seeded history of looks: views kept, copied, sliced and sliced again in every way the "
            "library offers, iterators moved, dereferenced, subtracted and compared, buckets walked whole, by type and until the callback throws, elements compared and printed, archive objects and "
            "sub-archives copied, moved, assigned and destroyed, its files deleted, renamed and replaced and every operation failing meanwhile; every answer is compared with lists of the stored "
            "values; non-trivial = at least one slice, iterator or copied archive")
    measure = "distinct (kind of storage, schema, sequence of kinds of looks and changes)"
    always_nontrivial = True

    def prepare(self):
        CppCheck.prepare(self)

    new_views = staticmethod(lambda schema, ai, vals, files=None: Views(schema, ai, vals))
    new_cmd = staticmethod(rand_cmd)

    def shown(self, schema, arch, files):
        return dm.cpp_expect(schema, arch, dm.Disk(files))

    def base_scenario(self, rng, seed):
        name = self.names[0] if rng.random() < 0.3 else rng.choice(self.names)
        schema = self.schemas[name]
        return dict(schema=name, ai=len(schema.archives) - 1, values=seed, scale=rng.choice([None, None, 3, 60]))

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p30/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            base = self.base_scenario(rng, seed)
            schema = self.schemas[base["schema"]]
            vals = self.vals(base, 0)
            files = sorted(dm.archive_files(schema, schema.archives[base["ai"]], vals))
            for k in range(6):
                store = rng.choice(["dir", "dir", "tar", "mem"])
                env = rng.random() < 0.6
                V = self.new_views(schema, base["ai"], vals)
                cmds = ["o 1 @name 0 0"]
                V.do(cmds[0])
                n = 10
                changed = False
                for _ in range(rng.choice([15, 40, 90])):
                    n += 1
                    x = rng.random()
                    if env and x < 0.06:
                        if store != "mem":
                            f = rng.choice(files)
                            cmds.append(rng.choice(["!del %s" % f, "!ren %s %s.old" % (f, f), "!rep %s %s" % (f, rng.choice(["other", "empty", "zero", "long"])),
                                                    "!all %s" % rng.choice(["del", "other", "move", "move_other"])]))
                            changed = True
                        continue
                    if env and x < 0.08:
                        cmds.append("!faults %d" % rng.choice([EIO, EACCES, EMFILE]))
                        changed = True
                        continue
                    if x < 0.09:
                        cmds.append("SX 0")
                        changed = True
                        continue
                    if not changed and x < 0.11:
                        c = "o %d @name 0 0" % n
                    else:
                        c = self.new_cmd(rng, V, n)
                    if V.do(c) is not None:
                        cmds.append(c)
                # everything that is still held, once more
                cmds += ["vl %s all" % v for v in sorted(V.held)[-12:] if V.view(v)] + ["d %s" % h for h in sorted(V.handles)[:3]]
                yield dict(base, store=store, cmds=cmds)
                if stop():
                    return

    def shrinks(self, sc):
        return ()

    def execute(self, sc):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        root = self.fresh_root()
        vals = self.vals(sc, 0)
        files = dm.archive_files(schema, arch, vals)
        other = dm.archive_files(schema, arch, self.vals(sc, 1))
        sc = dict(sc, tar=sc["store"] == "tar")
        pre = ["B @/d"]
        if sc["store"] == "tar":
            plain_tar(os.path.join(root, "d", "a.tar"), files, dm.dirs_of(files))
            plain_tar(os.path.join(root, "other.tar"), other, dm.dirs_of(other))
            pre.append("S 0 tar @/d/a.tar")
        elif sc["store"] == "dir":
            dm.write_tree(os.path.join(root, "d", "a"), files, dm.dirs_of(files))
            pre.append("S 0 fo @/d/a")
        else:
            rng = random.Random(sc["values"])
            pre += ["S 0 mem", "b 1 %s %d 0" % (sc["schema"], sc["ai"])]
            pre += interleave(rng, archive_tasks(rng, schema, arch, vals, 1, Ids(), 0.5, 0.0), 0.3) + ["bd 1"]
        try:
            return self.play(sc, schema, arch, root, vals, files, other, pre)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def play(self, sc, schema, arch, root, vals, files, other, pre):
        V = self.new_views(schema, sc["ai"], vals, files)
        cmds, want = list(pre), [None] * len(pre)
        shown = self.shown(schema, arch, files)
        kinds = []
        nchanges = 0
        gone = changed = False
        for c in sc["cmds"]:
            t = c.split(" ")
            if t[0] in ENV:
                nchanges += 1
                changed = True
                kinds.append(t[0])
                for o in self.raw_ops(sc, [t[0][1:]] + t[1:], files, other):
                    if o[0] in ("wf", "cp"):
                        src = os.path.join(root, "w%d" % len(cmds))
                        if o[0] == "wf":
                            with open(src, "wb") as f:
                                f.write(o[2])
                        else:
                            shutil.copyfile(o[1].replace("@", root), src)
                        cmds.append("rn %s %s" % (src, o[1] if o[0] == "wf" else o[2]))
                    else:
                        cmds.append(" ".join(o))
                    want.append(None)
                continue
            if t[0] == "!faults":
                cmds.append("R -1 %d - 0 %d 0 %s 0" % (ALL, A_ERRNO, t[1]))
                want.append(None)
                kinds.append(t[0])
                changed = True
                continue
            if t[0] == "SX":
                if gone:
                    continue
                gone = True
                cmds.append(c)
                want.append("ok")
                continue
            if t[0] == "o":
                # a storage that was used before may answer from what it knows; a later opening is another matter (P05, P16)
                if gone or changed:
                    continue
                c = "o %s %s %d 0" % (t[1], sc["schema"], sc["ai"])
            if t[0] in ("d", "ds"):
                h = V.handles.get(t[1])
                if h is None:
                    continue
                cmds.append(c)
                want.append(("dump", h.path) if t[0] == "d" else V.do(c) or ("text", h.path))
                kinds.append(t[0])
                continue
            e = V.do(c)
            if e is None:
                continue
            cmds.append(c)
            want.append(e)
            kinds.append(t[0] + "." + (t[3] if t[0] == "vd" else t[2] if t[0] in ("vl", "ip", "il") else ""))
        cmds += ["L", "X"]
        want += [None, None]
        cmds = [c.replace("@", root) for c in cmds]
        resp, st, out = self.driver().run(cmds)
        trace = ["%s => %s" % (c[:150], r[:300]) for c, r in zip(cmds, resp) if not c.startswith("L")]
        stats = {"ops": 0, "faults": {}, "seeds": 1, "changes": nchanges, "looks": len(kinds)}
        if st:
            return Result(violation=crash_text(st, resp, cmds, self.driver().stderr()), key="crash", nontrivial=True, trace=trace, stats=stats)
        ans = [r.split(" ", 1)[1] for r in resp]
        ops, fk, entries = parse_log(ans[cmds.index("L")])
        stats["ops"], stats["faults"] = ops, dict(fk)
        for c in sc["cmds"]:
            if c.split(" ")[0] in ENV:
                k = "files_" + {"!del": "deleted", "!ren": "renamed", "!rep": "replaced", "!all": "all_changed"}[c.split(" ")[0]]
                stats["faults"][k] = stats["faults"].get(k, 0) + 1
        verdict = None
        texts = {}
        for c, w, a in zip(cmds, want, ans):
            if w is None:
                continue
            if isinstance(w, tuple):
                if w[0] == "text":
                    first = texts.setdefault(w[1], a)
                    if a != first or not a.startswith("text "):
                        verdict = "wrong-view: the archive describes itself as %s, earlier it was %s" % (a[:120], first[:120])
                else:
                    verdict = self.dump_differs(shown, w[1], a)
            elif a != w:
                verdict = "wrong-view: %s shows %s, the stored values say %s" % (c, a[:200], w[:200])
            if verdict:
                trace = trace[:80]
                break
        if not verdict:
            for e in entries:
                if e[2] in MUTATING and sc["store"] != "mem":
                    verdict = "modified: looking performed %s on %s" % (e[2], e[3])
        if verdict:
            return Result(violation=verdict, key="violation", nontrivial=True, trace=trace, stats=stats)
        n = sum(1 for k in kinds if k.startswith(("vd.s", "i", "a")))
        return Result(key="|".join([sc["store"], sc["schema"], ",".join(kinds)])[:900] if n else "trivial", nontrivial=n > 0, trace=trace, stats=stats)

    def dump_differs(self, shown, path, line):
        from .cppdrv import parse_dump
        R, A = parse_dump(line)
        R0 = {p[len(path):]: x for p, x in shown[0].items() if p.startswith(path)}
        A0 = {p[len(path):]: x for p, x in shown[1].items() if p.startswith(path)}
        for p in sorted(set(R) | set(R0)):
            if R.get(p) != R0.get(p):
                return "wrong-view: %s shows %s, stored is %s" % (path + p, str(R.get(p))[:120], str(R0.get(p))[:120])
        return None if A == A0 else "wrong-view: archives %s, expected %s" % (A, A0)
