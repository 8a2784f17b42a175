"""Reference model of what a sequence of driver commands may answer and leave behind.

The model interprets the same command language as cpp/driver_main.cpp.  It knows which values were asked to
be written to which resource, which of these writes were acknowledged, and whether injected faults could
excuse a failure; from that it derives what every later open may and must show.
"""
import zlib

from . import pylib
from .common import Violation
from .cppdrv import _le, dump_text, parse_dump, row_text, u64, view_rows


class Att:
    __slots__ = ("value", "acked")

    def __init__(self, value, acked):
        self.value, self.acked = value, acked


def parse_rows(t):
    if t in ("", "-"):
        return []
    n = 1
    if "*" in t:
        k, t = t.split("*", 1)
        n = int(k)
    rows = [None if r == "u" else tuple(int(x) & 0xFFFFFFFFFFFFFFFF for x in r.split(",")) for r in t.split(";")]
    return rows * n


def parse_raw(t):
    if t.startswith("x"):
        return bytes.fromhex(t[1:])
    if t.startswith("z"):
        n = int(t[1:])
        return bytes((i * 31 + (i >> 8)) & 255 for i in range(n))
    return b""


class Model:
    """strict_faults: failures need an excuse (an injected fault in the command or, for streams, since its start)"""

    def __init__(self, schemas):
        self.schemas = schemas           # driver schema name -> Schema
        self.stor = {}
        self.builders = {}
        self.streams = {}
        self.prep = {}
        self.archs = {}
        self.res = {}                    # (dirkey, name) -> Att (the last attempt)
        self.sig = {}                    # (dirkey, archive) -> "yes" | "maybe"
        self.acks = 0
        self.fails = 0
        self.retry = False               # a failed set may be repeated
        self.outcomes = []
        self.arch_of_dir = {}

    # ------------------------------------------------------------ helpers
    def attempt(self, dirkey, name, value, acked):
        old = self.res.get((dirkey, name))
        vals = [value]
        if old is not None and not old.acked:
            vals = old.value + [value]
        self.res[(dirkey, name)] = Att([value] if acked else vals, acked)
        if acked:
            self.acks += 1

    def initial(self, schema, arch, dirkey, vals):
        self.sig[(dirkey, arch.name)] = "yes"
        self.arch_of_dir[dirkey] = (schema, arch)
        for r in arch.resources:
            if r.name not in vals:
                continue
            if r.kind == "archive":
                self.initial(schema, schema.archive(r.types[0]), dirkey + r.name + "/", vals[r.name])
            else:
                self.res[(dirkey, r.name)] = Att([vals[r.name]], True)

    def excuse(self, hard0, hard1, what):
        if hard1 <= hard0:
            raise Violation("spurious-failure: %s although no fault was injected" % what)
        self.fails += 1

    # ------------------------------------------------------------ interpretation
    def run(self, cmds, resp):
        h0 = 0
        for i, c in enumerate(cmds):
            if i >= len(resp):
                break
            ht, _, text = resp[i].partition(" ")
            h1 = int(ht[1:])
            try:
                self.step(c.split(" "), text, h0, h1)
            except Violation as v:
                raise Violation("%s [command %d: %s -> %s]" % (v, i, c[:120], text[:160]))
            h0 = h1

    def step(self, t, text, h0, h1):
        c = t[0]
        f = getattr(self, "c_" + c, None)
        if text.startswith("unknown-command") or text == "empty":
            raise RuntimeError("driver does not know %s" % t)
        if text == "-":
            if not self.crashed:
                self.crashed = self.ever_crashed = True
                self.in_flight(t)
            return
        if f:
            f(t, text, h0, h1)

    crashed = ever_crashed = False

    def in_flight(self, t):
        """the process stopped inside this command"""
        c = t[0]
        if c == "b" and self.stor.get(t[4]) is not None:
            arch = self.schemas[t[2]].archives[int(t[3])]
            self.maybe_sig(self.stor[t[4]], self.schemas[t[2]], arch)
        elif c == "bs" and self.builders.get(t[2]):
            p = self.builders[t[2]]
            r = p["arch"].resources[int(t[3])]
            self.maybe_sig(p["dir"] + r.name + "/", p["schema"], p["schema"].archive(r.types[0]))
        elif c == "set" and self.builders.get(t[1]):
            b = self.builders[t[1]]
            if b["created"] is False:
                return
            r = b["arch"].resources[int(t[2])]
            v = t[3] if len(t) > 3 else ""
            value = parse_raw(v) if r.kind == "raw_data" else parse_rows(v)
            self.attempt(b["dir"], r.name, value[0] if r.kind == "instance" else value, False)
        elif c == "pset" and self.builders.get(t[2]) and self.prep.get(t[1]):
            b, p = self.builders[t[2]], self.prep[t[1]]
            if b["created"] is not False:
                v = [list(r) for r in p["rows"]]
                self.attempt(b["dir"], p["r"].name, v[0] if p["r"].kind == "instance" else v, False)
        elif c == "st" and self.builders.get(t[2]):
            b = self.builders[t[2]]
            if b["created"] is not False:
                self.attempt(b["dir"], b["arch"].resources[int(t[3])].name, [], False)

    def maybe_sig(self, d, schema, arch):
        self.arch_of_dir[d] = (schema, arch)
        self.sig.setdefault((d, arch.name), "maybe")

    def c_T(self, t, text, h0, h1):
        self.stor, self.builders, self.streams, self.prep, self.archs = {}, {}, {}, {}, {}
        self.crashed = False

    # storages
    def c_S(self, t, text, h0, h1):
        k = t[2]
        key = None
        if k in ("fc", "fo"):
            key = "F:" + t[3].rstrip("/") + "/"
        elif k == "tar":
            key = "T:" + t[3] + ":" + (t[4] + "/" if len(t) > 4 else "")
        else:
            key = "M:%s:" % t[1]
        if text == "ok":
            self.stor[t[1]] = key
        else:
            self.stor[t[1]] = None
            if not self.storage_may_fail(t):
                self.excuse(h0, h1, "storage could not be created")

    def storage_may_fail(self, t):
        return t[2] in ("fo", "tar")

    def c_SD(self, t, text, h0, h1):
        p = self.stor.get(t[2])
        if p is None:
            self.stor[t[1]] = None
            return
        self.stor[t[1]] = p + t[3] + "/" if text == "ok" else None
        if text != "ok" and t[4] == "c":
            self.excuse(h0, h1, "directory could not be created")

    def c_SX(self, t, text, h0, h1):
        self.stor.pop(t[1], None)

    # builders
    def c_b(self, t, text, h0, h1):
        schema = self.schemas[t[2]]
        arch = schema.archives[int(t[3])]
        self.open_builder(t[1], schema, arch, self.stor.get(t[4]), text, h0, h1)

    def open_builder(self, bid, schema, arch, d, text, h0, h1):
        if d is None:
            if text == "open":
                raise Violation("wrong-answer: a builder without storage reports to be open")
            self.builders[bid] = None
            return
        s = self.sig.get((d, arch.name))
        if s == "broken":
            # something exists under the name of the signature, but it is not the archive's
            if text == "open":
                raise Violation("existing-modified: a builder opened on an archive with a different or damaged signature")
            self.builders[bid] = None
            return
        if text == "open":
            self.builders[bid] = dict(schema=schema, arch=arch, dir=d, created=(None if s == "maybe" else s is None))
            self.sig[(d, arch.name)] = "yes"
            self.arch_of_dir[d] = (schema, arch)
        else:
            self.builders[bid] = None
            if s is None:
                self.sig[(d, arch.name)] = "maybe"
                self.arch_of_dir[d] = (schema, arch)
                self.excuse(h0, h1, "builder did not open")
            elif s == "yes":
                self.excuse(h0, h1, "builder did not open on an existing archive")
            if text.startswith("exc") and h1 <= h0:
                raise Violation("spurious-failure: opening a builder raised")

    def c_bs(self, t, text, h0, h1):
        p = self.builders.get(t[2])
        if p is None:
            if text != "none":
                self.builders[t[1]] = None
            return
        if text == "none":
            raise Violation("wrong-answer: the open builder is not open any more")
        r = p["arch"].resources[int(t[3])]
        sub = p["schema"].archive(r.types[0])
        d = p["dir"] + r.name + "/"
        # asking again gives the same builder
        old = next((b for b in self.builders.values() if b and b["dir"] == d and b.get("parent") is p), None)
        if old is not None and text == "open":
            self.builders[t[1]] = old
            return
        self.open_builder(t[1], p["schema"], sub, d, text, h0, h1)
        p.setdefault("subs", {}).setdefault(d, []).append(t[1])
        if self.builders[t[1]]:
            self.builders[t[1]]["parent"] = p
            # all of them are the same object
            for x in p["subs"][d]:
                if self.builders.get(x, 1) is None:
                    self.builders[x] = self.builders[t[1]]

    def c_bd(self, t, text, h0, h1):
        self.builders.pop(t[1], None)

    def rejected(self, b, text, h0, h1):
        """handles the answer to a write on a builder of an existing archive; True if it was rejected"""
        if text.startswith("exc Attempting"):
            if b["created"]:
                raise Violation("spurious-failure: a builder that created the archive refuses to write")
            return True
        if b["created"] is False and not (text.startswith("exc") and h1 > h0):
            raise Violation("existing-modified: writing to an archive that existed before was not rejected")
        return False

    def c_set(self, t, text, h0, h1):
        b = self.builders.get(t[1])
        if b is None:
            if text != "none":
                raise Violation("wrong-answer: set on a builder that is not open answered")
            return
        r = b["arch"].resources[int(t[2])]
        if text == "none":
            raise Violation("wrong-answer: the open builder is not open any more")
        if self.rejected(b, text, h0, h1):
            return
        v = t[3] if len(t) > 3 else ""
        value = parse_raw(v) if r.kind == "raw_data" else parse_rows(v)
        if r.kind == "instance":
            value = value[0]
        if self.contended(b["dir"], r.name):
            return
        self.attempt(b["dir"], r.name, value, text == "true")
        if text != "true":
            self.excuse(h0, h1, "setting %s failed" % r.name)

    # vectors and structs in memory
    def c_pn(self, t, text, h0, h1):
        b = self.builders.get(t[2])
        self.prep.pop(t[1], None)
        if text != "ok":
            if b is not None:
                raise Violation("wrong-answer: vector could not be made")
            return
        if b is None:
            return
        r = b["arch"].resources[int(t[3])]
        st = b["schema"].struct(r.types[0])
        rows = [[0] * len(st.fields)] if r.kind == "instance" else []
        self.prep[t[1]] = dict(r=r, schema=b["schema"], st=st, rows=rows, cur=0 if rows else None)

    def c_pg(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None or p["r"].kind == "instance":
            return
        if text != "ok":
            p["cur"] = None
            self.excuse(h0, h1, "growing a vector failed")
            return
        p["rows"].append(list(parse_rows(t[2])[0]) if len(t) > 2 else [0] * len(p["st"].fields))
        p["cur"] = len(p["rows"]) - 1

    def c_pat(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None:
            return
        i = int(t[2])
        if (text == "ok") != (i < len(p["rows"])):
            raise Violation("wrong-value: a vector of %d elements has %s element %d" % (len(p["rows"]), "an" if text == "ok" else "no", i))
        if text == "ok":
            p["cur"] = {"0": i, "1": 0, "2": len(p["rows"]) - 1}[t[3]]

    def c_prs(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None:
            return
        p["cur"] = None
        if text != "ok":
            if t[0] == "ppo" and not p["rows"]:
                return
            self.excuse(h0, h1, "resizing a vector failed")
            return
        if p["r"].kind == "instance":
            return
        if t[0] == "ppo":
            p["rows"].pop()
        elif t[0] == "prs":
            n = int(t[2])
            del p["rows"][n:]
            while len(p["rows"]) < n:
                p["rows"].append([0] * len(p["st"].fields))
    c_prv = c_ppo = c_prs

    def c_pf(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None or p["cur"] is None:
            return
        p["rows"][p["cur"]][int(t[2])] = u64(int(t[3]))

    def c_pfr(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None or p["cur"] is None:
            return
        want = row_text(p["rows"][p["cur"]])
        if text != "row " + want:
            raise Violation("wrong-value: element %d has fields %s, expected %s" % (p["cur"], text, want))

    def c_psz(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is not None and text != "size %d" % len(p["rows"]):
            raise Violation("wrong-value: vector has %s, expected %d" % (text, len(p["rows"])))

    def c_pd(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is None:
            return
        want = dump_text(p["schema"], p["r"], p["rows"] if p["r"].kind == "vector" else p["rows"][0])
        if text != want:
            raise Violation("wrong-value: vector shows %s, expected %s" % (text[:200], want[:200]))

    def c_pcp(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        if p is not None:
            self.prep[t[2]] = dict(p, rows=[list(r) for r in p["rows"]], cur=0 if p["rows"] else None)

    def c_pset(self, t, text, h0, h1):
        p = self.prep.get(t[1])
        b = self.builders.get(t[2])
        if p is None or b is None:
            return
        if self.rejected(b, text, h0, h1):
            return
        value = [list(r) for r in p["rows"]]
        if p["r"].kind == "instance":
            value = value[0]
        if self.contended(b["dir"], p["r"].name):
            return
        self.attempt(b["dir"], p["r"].name, value, text == "true")
        if text != "true":
            self.excuse(h0, h1, "setting %s failed" % p["r"].name)

    # streams
    def c_st(self, t, text, h0, h1):
        self.streams.pop(t[1], None)
        b = self.builders.get(t[2])
        if b is None:
            if text != "none":
                raise Violation("wrong-answer: start on a builder that is not open answered")
            return
        r = b["arch"].resources[int(t[3])]
        if text == "none":
            raise Violation("wrong-answer: the open builder is not open any more")
        if self.rejected(b, text, h0, h1):
            return
        st = dict(dir=b["dir"], r=r, schema=b["schema"], value=[], hard=h0, cur=None, closed=False, tainted=False)
        if self.contended(b["dir"], r.name):
            st["shared"] = True
        else:
            self.attempt(st["dir"], r.name, st["value"], False)
        if text == "ok":
            self.streams[t[1]] = st
        else:
            self.excuse(h0, h1, "starting %s failed" % r.name)

    def contended(self, d, name):
        """another stream to the same resource is open: what is stored in the end is not defined"""
        o = [s for s in self.streams.values() if s["dir"] == d and s["r"].name == name and not s["closed"]]
        for s in o:
            s["shared"] = True
        if o:
            self.res[(d, name)] = Att([None], False)
        return bool(o)

    def need(self, t, text):
        s = self.streams.get(t[1])
        if s is None:
            if text != "none":
                raise Violation("wrong-answer: unknown stream answered")
            return None
        return s

    def failed_add(self, s, text, h0, h1):
        if text == "ok":
            return False
        self.excuse(h0, h1, "adding to %s failed" % s["r"].name)
        return True

    def struct(self, s, ti=0):
        return s["schema"].struct(s["r"].types[ti])

    def c_g(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        s["cur"] = None
        if self.failed_add(s, text, h0, h1):
            return
        st = self.struct(s)
        if s["r"].kind == "vector":
            s["value"].append(list(parse_rows(t[2])[0]) if t[0] == "g" else [0] * len(st.fields))
            s["cur"] = (s["value"][-1], st)
    c_g0 = c_g

    def c_gt(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        if text != "ok":
            s["tainted"] = True
            s["cur"] = None
            self.excuse(h0, h1, "adding failed")
            return
        rows = [[0] * len(self.struct(s).fields) if x is None else list(x) for x in parse_rows(t[3])]
        s["value"] += rows * int(t[2])
        s["cur"] = None
        if rows and int(t[2]):
            s["value"][-1] = list(rows[-1])
            s["cur"] = (s["value"][-1], self.struct(s))

    def c_mg(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        s["cur"] = None
        if self.failed_add(s, text, h0, h1):
            return
        s["value"].append([])

    def c_ma(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        s["cur"] = None
        if not s["value"]:
            if text != "none":
                raise Violation("wrong-answer: element without bucket")
            return
        if self.failed_add(s, text, h0, h1):
            return
        ti = int(t[2])
        st = self.struct(s, ti)
        row = list(parse_rows(t[3])[0]) if t[0] == "ma" else [0] * len(st.fields)
        s["value"][-1] = s["value"][-1] + [(ti, row)]
        s["cur"] = (row, st)
    c_ma0 = c_ma

    def c_mt(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        if text != "ok":
            s["tainted"] = True
            self.excuse(h0, h1, "adding failed")
            return
        els = []
        if len(t) > 3 and t[3] != "-":
            for x in t[3].split(";"):
                k, v = x.split(":", 1)
                x = parse_rows(v)[0]
                els.append((int(k), [0] * len(self.struct(s, int(k)).fields) if x is None else list(x)))
        s["value"] += [list(els)] * int(t[2])
        s["cur"] = None

    def c_f(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None or s["cur"] is None:
            return
        if text != "ok":
            raise Violation("wrong-answer: assigning a field failed")
        row, st = s["cur"]
        row[int(t[2])] = u64(int(t[3]))

    def c_fr(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None or s["cur"] is None:
            return
        row, st = s["cur"]
        if text != "row " + row_text(row):
            raise Violation("wrong-value: element of %s has fields %s, expected %s" % (s["r"].name, text, row_text(row)))

    def c_sz(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None or s["tainted"]:
            return
        if text != "size %d" % len(s["value"]):
            raise Violation("wrong-value: %s has %s after %d additions" % (s["r"].name, text, len(s["value"])))

    def c_c(self, t, text, h0, h1):
        s = self.need(t, text)
        if s is None:
            return
        s["cur"] = None
        r = s["r"]
        if s["closed"]:
            # closing again: nothing may change, and nothing wrong may be shown
            if text not in ("invalid",) and not text.startswith("exc") and not s["tainted"] and not s.get("shared"):
                want = fast_dump(s["schema"], r, s["value"])
                if text != want:
                    raise Violation("wrong-value: closing %s again returns %s, expected %s" % (r.name, text[:200], want[:200]))
            return
        s["closed"] = True
        if s.get("shared"):
            self.res[(s["dir"], r.name)] = Att([None], False)
            return
        if text == "invalid" or text.startswith("exc"):
            self.excuse(s["hard"], h1, "closing %s failed" % r.name)
            return
        if s["tainted"]:
            self.res[(s["dir"], r.name)] = Att([None], False)
            return
        want = fast_dump(s["schema"], r, s["value"])
        if text != want:
            raise Violation("wrong-value: the view returned for %s shows %s, expected %s" % (r.name, text[:200], want[:200]))
        self.res[(s["dir"], r.name)] = Att([s["value"]], True)
        self.acks += 1

    def c_drop(self, t, text, h0, h1):
        self.streams.pop(t[1], None)

    # archives
    def c_o(self, t, text, h0, h1):
        schema = self.schemas[t[2]]
        arch = schema.archives[int(t[3])]
        d = self.stor.get(t[4])
        if text.startswith("exc"):
            self.archs[t[1]] = None
            self.excuse(h0, h1, "opening raised")
            return
        self.archs[t[1]] = dict(schema=schema, arch=arch, dir=d, faulted=h1 > h0, open=text == "open", snap=None)

    def c_d(self, t, text, h0, h1):
        a = self.archs.get(t[1])
        if a is None:
            if text != "none":
                raise Violation("wrong-answer: dump of unknown archive")
            return
        R, A = parse_dump(text)
        if (A.get("") == "open") != a["open"]:
            raise Violation("wrong-answer: is_open and operator bool disagree")
        if a["snap"] is not None and a["snap"] != text:
            raise Violation("changed-content: an open archive shows different content than before")
        first = a["snap"] is None
        a["snap"] = text
        if first:
            self.check_arch(a["schema"], a["dir"], a["arch"], "", R, A, a["faulted"])
            self.outcomes.append("%s%d/%d" % (A.get("", "?")[0], sum(1 for x in R.values() if x not in ("invalid", "absent")), len(R)))

    def c_ds(self, t, text, h0, h1):
        a = self.archs.get(t[1])
        if a is None:
            return
        if not text.startswith("text "):
            self.excuse(h0, h1, "describe failed")
            return
        body = text[5:]
        if h1 > h0:
            return          # describing neither writes nor opens anything; its text may be cut short
        if a["dir"] is None:
            if "FATAL" not in body:
                raise Violation("wrong-description: archive without storage is not described as failed")
            return
        if a["open"] == ("FATAL" in body):
            raise Violation("wrong-description: an archive that is %s is described as %s" % (
                "open" if a["open"] else "not open", "failed" if a["open"] else "fine"))

    def c_ax(self, t, text, h0, h1):
        self.archs.pop(t[1], None)

    def c_ac(self, t, text, h0, h1):
        pass

    # ------------------------------------------------------------ what an open archive may show
    def avail(self, d, name):
        a = self.res.get((d, name)) if d is not None else None
        if a is None:
            return False, False, []
        return True, a.acked, a.value

    def sig_avail(self, d, arch):
        s = self.sig.get((d, arch.name)) if d is not None else None
        return s not in (None, "broken"), s == "yes"

    def possible(self, schema, d, arch):
        can, must = self.sig_avail(d, arch)
        for r in arch.resources:
            if r.kind == "archive":
                if not r.optional:
                    c, m = self.possible(schema, self.subdir(d, r.name), schema.archive(r.types[0]))
                    can, must = can and c, must and m
                continue
            c, m, vals = self.avail(d, r.name)
            lim = self.limit(schema, arch, r)
            big = lim is not None and c and max(count(schema, r, v) for v in vals) > lim
            if big:
                must = False
                if m and min(count(schema, r, v) for v in vals) > lim:
                    can = False
                continue
            if not r.optional:
                can, must = can and c, must and m
        return can, must

    @staticmethod
    def subdir(d, name):
        return None if d is None else d + name + "/"

    @staticmethod
    def limit(schema, arch, r):
        lims = []
        for a in arch.resources:
            for src, fld, dst in a.refs:
                if dst == r.name:
                    w = next(f for f in schema.struct(src).fields if f.name == fld).width
                    if w < 64:
                        lims.append(1 << w)
        return min(lims) if lims else None

    def check_arch(self, schema, d, arch, prefix, R, A, faulted):
        can, must = self.possible(schema, d, arch)
        if faulted:
            must = False
        is_open = A.get(prefix) == "open"
        if prefix == "" or is_open:
            # resources are visible
            mand_ok = True
            for r in arch.resources:
                p = prefix + r.name
                if r.kind == "archive":
                    sd = self.subdir(d, r.name)
                    sub = schema.archive(r.types[0])
                    if R.get(p) == "absent":
                        c, m = self.possible(schema, sd, sub)
                        if m and not faulted:
                            raise Violation("lost-resource: optional archive %s is complete but reported absent" % p)
                        continue
                    if p + "/" not in A:
                        raise RuntimeError("no dump for %s" % p)
                    self.check_arch(schema, sd, sub, p + "/", R, A, faulted)
                    if A[p + "/"] != "open":
                        if r.optional:
                            raise Violation("wrong-answer: optional archive %s is present but not open" % p)
                        mand_ok = False
                    continue
                c, m, vals = self.avail(d, r.name)
                text = R.get(p)
                if text is None:
                    raise RuntimeError("no dump for %s" % p)
                there = text not in ("invalid", "absent")
                if there:
                    if not c:
                        raise Violation("phantom-resource: %s was never written but shows %s" % (p, text[:100]))
                    if None not in vals and text not in [fast_dump(schema, r, v) for v in vals]:
                        raise Violation("wrong-content: %s shows %s, written was %s" % (
                            p, text[:200], [fast_dump(schema, r, v)[:200] for v in vals]))
                    n = int(text.split(" ")[1]) if r.kind != "instance" else 0
                    lim = self.limit(schema, arch, r)
                    if lim is not None and n > lim:
                        mand_ok = False
                elif m and not faulted:
                    raise Violation("lost-resource: %s was reported as written but is not available" % p)
                if not there and not r.optional:
                    mand_ok = False
                if not there and r.optional and text != "absent":
                    raise Violation("wrong-answer: optional resource %s is present but invalid" % p)
            if is_open and not mand_ok:
                raise Violation("open-incomplete: archive %s reports open although a mandatory resource is not available or too large" % (prefix or "."))
            sc, sm = self.sig_avail(d, arch)
            if mand_ok and sm and not is_open and not faulted:
                raise Violation("closed-complete: archive %s has everything but is not open" % (prefix or "."))
        if is_open and not can:
            raise Violation("open-incomplete: archive %s reports open although it cannot be complete" % (prefix or "."))
        if must and not is_open:
            raise Violation("closed-complete: archive %s is complete but not open" % (prefix or "."))

    # ------------------------------------------------------------ bytes on disk
    def expected_disk(self, root):
        """{path relative to root: bytes} for everything acknowledged below the file storage at root"""
        out = {}
        for (d, name), a in self.res.items():
            if not a.acked or not d.startswith("F:" + root):
                continue
            schema, arch = self.arch_of_dir[d]
            rel = d[len("F:" + root):].lstrip("/")
            out.update({rel + f: b for f, b in resource_files(schema, arch, arch.res(name), a.value[0]).items()})
        for (d, name), s in self.sig.items():
            if s != "yes" or not d.startswith("F:" + root):
                continue
            schema, arch = self.arch_of_dir[d]
            rel = d[len("F:" + root):].lstrip("/")
            out[rel + name + ".archive"] = b"\0" * 16
            out[rel + name + ".archive.schema"] = pylib.cls(schema, name).schema().encode()
        return out


def resource_files(schema, arch, r, value):
    files = dict(schema.files(r, value))
    text = pylib.cls(schema, arch.name).resource_schema(r.name)
    files[r.name + ".schema"] = text.encode()
    if r.kind == "multivector":
        files[r.name + "_index.schema"] = ("index(%s)" % text).encode()
    return files


def count(schema, r, v):
    if v is None:
        return 0
    if r.kind == "vector" and schema.struct(r.types[0]).has_range:
        return max(0, len(v) - 1)     # the last element only ends the last range
    if r.kind in ("vector", "multivector", "raw_data"):
        return len(v)
    return 1


def fast_dump(schema, r, v):
    if r.kind == "vector" and len(v) > 2000 and not schema.struct(r.types[0]).has_range:
        # long, highly repetitive vectors
        memo, parts = {}, []
        for row in v:
            k = id(row)
            b = memo.get(k)
            if b is None:
                b = memo[k] = _le(row)
            parts.append(b)
        return "vec %d %d" % (len(v), zlib.crc32(b"".join(parts)))
    if r.kind == "multivector" and len(v) > 2000:
        memo, c = {}, 0
        for b in v:
            k = id(b)
            x = memo.get(k)
            if x is None:
                body = b"".join(_le([ti]) + _le(row) for ti, row in b)
                x = memo[k] = _le([len(b), zlib.crc32(body)])
            c = zlib.crc32(x, c)
        return "mv %d %d" % (len(v), c)
    return dump_text(schema, r, v)
