"""P23, P24: writing archives with the Rust library.  The command language and the model are those of the C++ checks."""
import os
import random

from . import common, cppdrv, pylib, rustdrv
from .common import Result, Violation
from .cppcheck import P01, P02, Ids, archive_tasks, err_rules, interleave
from .cppdrv import Driver, parse_dump
from .cppmodel import Att, Model, count

STUB = ("kernel file system calls below the scratch directory (interposed in the driver binary; real tmpfs behind them)",
        "the `diff` crate (text of one error message), which is not available offline")
REAL = ("flatdata-rs: builders, archives, ExternalVector, MultiVector, views, FileResourceStorage, MemoryResourceStorage, TarArchiveResourceStorage "
        "(current tree, with overflow checks and debug assertions)",
        "flatdata-generator: Rust code of every schema used, generated from the current tree", "Rust std, memmap2, tar")


class RustModel(Model):
    def step(self, t, text, h0, h1):
        if text.startswith("panic"):
            raise Violation("panic: %s" % text[:300])
        c, w = t[0], text.split(" ")[0]
        self.reason = text
        if c in ("b", "bs") and w == "closed":
            text = "closed"
        elif c == "c" and w in ("invalid", "closed"):
            text = "invalid"
        Model.step(self, t, text, h0, h1)

    def open_builder(self, bid, schema, arch, d, text, h0, h1):
        if d is not None and self.sig.get((d, arch.name)) == "yes":
            if text == "open":
                raise Violation("existing-modified: a builder was created for an archive that exists")
            if self.reason != "closed exists" and h1 <= h0:
                raise Violation("wrong-answer: creating an existing archive answers %s" % self.reason)
            self.builders[bid] = None
            return
        maybe = d is not None and self.sig.get((d, arch.name)) in ("maybe", "broken")
        if maybe and text == "closed":
            self.builders[bid] = None       # what a failed creation left behind counts as existing
            return
        Model.open_builder(self, bid, schema, arch, d, text, h0, h1)

    def c_bs(self, t, text, h0, h1):
        p = self.builders.get(t[2])
        if p is None:
            if text != "none":
                raise Violation("wrong-answer: a sub-archive of nothing")
            self.builders[t[1]] = None
            return
        r = p["arch"].resources[int(t[3])]
        self.open_builder(t[1], p["schema"], p["schema"].archive(r.types[0]), p["dir"] + r.name + "/", text, h0, h1)

    # ------------------------------------------------------------ editing in memory
    def c_pcl(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None or p["r"].kind == "instance":
            return
        p["cur"] = None
        n = int(t[2]) if len(t) > 2 else 0
        p["rows"][:] = [[0] * len(p["st"].fields) for _ in range(n)]
    c_pwl = c_pcl

    def c_pfi(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is not None and text == "ok" and p["r"].kind == "vector":
            p["rows"][int(t[2])] = list(p["rows"][int(t[3])])

    # ------------------------------------------------------------ streaming
    def c_mg(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is not None:
            s["nobucket"] = text != "ok"
        Model.c_mg(self, t, text, h0, h1)

    def c_mt(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is not None:
            s["nobucket"] = text != "ok"
        Model.c_mt(self, t, text, h0, h1)

    def c_ma(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is not None and s.get("nobucket") and text == "none":
            s["cur"] = None       # the last bucket could not be added
            return
        Model.c_ma(self, t, text, h0, h1)
    c_ma0 = c_ma

    # ------------------------------------------------------------ opening
    def must_open(self, schema, d, arch):
        if d is None or self.sig.get((d, arch.name)) != "yes":
            return False
        for r in arch.resources:
            if r.kind == "archive":
                sub, sd = schema.archive(r.types[0]), d + r.name + "/"
                if r.optional and self.untouched(schema, sd, sub):
                    continue
                if not self.must_open(schema, sd, sub):
                    return False
                continue
            a = self.res.get((d, r.name))
            if a is None:
                if not r.optional:
                    return False
                continue
            if not a.acked or None in a.value:
                return False
            lim = self.limit(schema, arch, r)
            if lim is not None and count(schema, r, a.value[0]) > lim:
                return False
        return True

    def untouched(self, schema, d, arch):
        return (d, arch.name) not in self.sig and not any(k[0].startswith(d) for k in self.res)

    def c_o(self, t, text, h0, h1):
        schema = self.schemas[t[2]]
        arch = schema.archives[int(t[3])]
        d = self.stor.get(t[4])
        self.archs[t[1]] = None
        if text == "open":
            self.archs[t[1]] = dict(schema=schema, arch=arch, dir=d, faulted=False, open=True, snap=None)
        elif text == "none":
            if d is not None:
                raise Violation("wrong-answer: nothing was opened")
        else:
            if h1 <= h0 and self.must_open(schema, d, arch):
                raise Violation("closed-complete: the archive is complete but opening it fails")
            self.outcomes.append("c:" + text.split(" ")[1][:12])

    def c_ds(self, t, text, h0, h1):
        if self.archs.get(t[1]) and not text.startswith("text "):
            raise Violation("wrong-answer: the archive cannot be printed")

    # ------------------------------------------------------------ bytes
    def expected_disk(self, root):
        keep = {}
        for (d, name), a in list(self.res.items()):
            if a.acked and (d in self.arch_of_dir):
                schema, arch = self.arch_of_dir[d]
                r = arch.res(name)
                if r.kind == "vector" and not a.value[0] and schema.struct(r.types[0]).has_range:
                    # the end of the (empty) last range is always stored
                    keep[(d, name)] = a
                    self.res[(d, name)] = Att([[[0] * len(schema.struct(r.types[0]).fields)]], True)
        try:
            return Model.expected_disk(self, root)
        finally:
            self.res.update(keep)


class RustMixin:
    real, stub = REAL, STUB
    nrandom = {"quick": 6, "thorough": 14}
    wide = True
    bits = False
    flt = False

    def schema_ids(self):
        return ["fixed"] + [["rs", self.seed * 1000 + i] for i in range(self.nrandom[self.tier])] + (["wide"] if self.wide else []) + (["bits0", "bits1"] if self.bits else [])

    def prepare(self):
        from multiprocessing import Pool
        self.sids = self.schema_ids()
        with Pool(common.NCPU) as p:
            p.map(_render, self.sids)
        self.exe = rustdrv.build(self.sids)
        self.schemas = {cppdrv.sid_name(s): pylib.schema_by_id(s) for s in self.sids}
        self.names = list(self.schemas)
        self.drv = None

    def make_model(self, sc, root):
        m = RustModel(self.schemas)
        if sc.get("tar"):
            m.excuse = lambda a, b, what: None
        return m


def _render(sid):
    s = pylib.schema_by_id(sid)
    pylib.rendered(s, "rust")
    pylib.rendered(s, "py")


class P23(RustMixin, P01):
    prop = "P23"
    rule = ("one run = one workload (schema, values, order and interleaving of set and streaming calls, sub-archives, further builders on the same directory) executed by the "
            "real Rust builder over the simulated disk, with a fault plan: every operation of a workload with each error kind, torn writes, full disks, "
            "random plans, benign short and interrupted writes; non-trivial = at least one fault fired")

    def workload(self, rng, seed, name=None, mix=None, **kw):
        name, ai, vals, cmds = P01.workload(self, rng, seed, name, mix, **kw)
        if rng.random() < 0.4:
            # somebody creates the archive again, at any time
            again = ["b 70 %s %d 0" % (name, ai)] if rng.random() < 0.5 else ["S 70 fc @/d/a", "b 70 %s %d 70" % (name, ai)]
            arch = self.schemas[name].archives[ai]
            again += interleave(rng, archive_tasks(rng, self.schemas[name], arch, vals, 70, lambda c=[200]: c.append(c[-1] + 1) or c[-1], 0.5, 0), 0.2)[:6]
            p = rng.randint(1, len(cmds))
            cmds = cmds[:p] + again + cmds[p:]
        return name, ai, vals, cmds


class P24(RustMixin, P02):
    prop = "P24"
    rule = ("one run = one workload executed by the real Rust builder over the simulated disk, stopped at one operation or inside one write after a given "
            "number of bytes, optionally after other faults, then reopened on what the disk holds; non-trivial = the crash fired")
