"""P11: streaming and editing in memory, however sliced and buffered."""
import hashlib
import random

from . import cppcheck as cc
from . import pylib
from .cppcheck import CppCheck, archive_tasks, interleave, values_for
from .cppdrv import row_text, u64
from .model import rand_field, rand_row
from .py_write import EINTR
from .simlib import A_ERRNO, A_SHORT, KLASS


def vector_edit_cmds(rng, schema, r, ri, bid, ids):
    """a vector or struct edited in memory, then set; the model follows what it contains"""
    st = schema.struct(r.types[0])
    pid = ids()
    o = ["pn %d %d %d" % (pid, bid, ri)]
    n = 0 if r.kind == "vector" else 1
    for _ in range(rng.choice([0, 3, 8, 25])):
        x = rng.random()
        if r.kind == "vector" and x < 0.45:
            if x < 0.2:
                o.append("pg %d %s" % (pid, row_text(rand_row(rng, st))))
                n += 1
            elif x < 0.28:
                o.append("pg %d" % pid)
                n += 1
            elif x < 0.35:
                n = max(0, n + rng.choice([-2, -1, 0, 1, 3]))
                o.append("prs %d %d" % (pid, n))
            elif x < 0.41:
                if n:
                    o.append("ppo %d" % pid)
                    n -= 1
            else:
                o.append("prv %d %d" % (pid, rng.choice([0, n, n + 5])))
        elif n and x < 0.55:
            o.append("pat %d %d %d" % (pid, rng.randrange(n), rng.choice([0, 0, 1, 2])))
        elif x < 0.9:
            i = rng.randrange(len(st.fields))
            o.append("pf %d %d %d %d" % (pid, i, u64(rand_field(rng, st.fields[i])), rng.randint(0, 1)))
            if rng.random() < 0.3:
                o.append("pfr %d" % pid)
        else:
            o.append(rng.choice(["pfr %d", "psz %d", "pd %d"]) % pid)
    o.append("pd %d" % pid)
    if rng.random() < 0.2:
        q = ids()
        o.append("pcp %d %d" % (pid, q))
        o += ["pf %d 0 %d 0" % (q, u64(rand_field(rng, st.fields[0]))), "pd %d" % pid, "pd %d" % q]
    o.append("pset %d %d" % (pid, bid))
    return o


def stream_tasks(rng, schema, arch, vals, bid, ids, edits, p_edit, editor=vector_edit_cmds):
    """like archive_tasks, with vectors and structs edited in memory now and then"""
    tasks = []
    for i, r in enumerate(arch.resources):
        if r.name not in vals:
            continue
        if r.kind == "archive":
            b = ids()
            sub = interleave(rng, stream_tasks(rng, schema, schema.archive(r.types[0]), vals[r.name], b, ids, edits, p_edit, editor), 0.6)
            tasks.append(["bs %d %d %d" % (b, bid, i)] + sub)
        elif r.kind in ("vector", "instance") and rng.random() < p_edit:
            tasks.append(editor(rng, schema, r, i, bid, ids))
        else:
            one = type(arch)("x", [r])
            t = archive_tasks(rng, schema, one, {r.name: vals[r.name]}, bid, ids, p_stream=0.75, edits=edits)[0]
            # the resource's position in the archive
            x = t[0].split(" ")
            x[3 if x[0] == "st" else 2] = str(i)
            tasks.append([" ".join(x)] + t[1:])
    return tasks


def big_tasks(rng, schema, arch, bid, ids, target):
    """streams that cross the internal buffers' size several times"""
    w, odd, b1 = schema.structs
    tasks = []

    def els(types):
        out = []
        for _ in range(rng.choice([1, 2, 3])):
            ti = rng.choice(types)
            out.append((ti, rand_row(rng, schema.struct(names[ti]))))
        return out
    pick = rng.sample(["v", "m", "n"], rng.choice([1, 2, 2]))
    for i, r in enumerate(arch.resources):
        sid = ids()
        big = r.name in pick
        if r.name == "v":
            left = target if big else rng.randint(0, 2000)
            t = ["st %d %d %d" % (sid, bid, i)]
            while left > 0:
                n = min(left, rng.choice([1, 320, 3200, 320 * 5000, 320 * 30000]))
                rows = [rand_row(rng, w) for _ in range(rng.choice([1, 2, 3, 4]))]
                texts = [row_text(x) for x in rows]
                if rng.random() < 0.6:      # elements nobody assigns anything to
                    for _ in range(rng.choice([1, 1, 2])):
                        rows.append(None)
                        texts.insert(rng.randint(0, len(texts)), "u")
                k = max(1, n // (320 * len(rows)))
                t.append("gt %d %d %s" % (sid, k, ";".join(texts)))
                left -= k * 320 * len(rows)
                # the element before and after a possible flush, edited
                if rng.random() < 0.5:
                    t.append("f %d %d %d 0" % (sid, rng.randrange(40), rng.getrandbits(64)))
                if rng.random() < 0.3:
                    t += ["g0 %d" % sid, "f %d %d %d 0" % (sid, rng.randrange(40), rng.getrandbits(64)), "fr %d" % sid, "sz %d" % sid]
            t.append("c %d" % sid)
            tasks.append(t)
        elif r.name in ("m", "n"):
            names = r.types
            left = target if big else rng.randint(0, 2000)
            t = ["st %d %d %d" % (sid, bid, i)]
            heavy = names.index("W")
            while left > 0:
                e = els(list(range(len(names))))
                if big:
                    e += [(heavy, rand_row(rng, w))]
                per = sum(1 + schema.struct(names[ti]).size for ti, _ in e)
                n = min(left, rng.choice([1, per, per * 10, 320 * 5000, 320 * 30000]))
                k = max(1, n // per)
                t.append("mt %d %d %s" % (sid, k, ";".join("%d:%s" % (ti, row_text(x) if rng.random() < 0.75 else "u") for ti, x in e)))
                left -= k * per
                if rng.random() < 0.4:
                    t += ["mg %d" % sid, "ma %d %d %s" % (sid, heavy, row_text(rand_row(rng, w))), "f %d 3 %d 0" % (sid, rng.getrandbits(64)), "fr %d" % sid]
                if rng.random() < 0.1:      # one huge bucket
                    t.append("mg %d" % sid)
                    t += ["ma %d %d %s" % (sid, heavy, row_text(rand_row(rng, w)))] * rng.choice([3, 50])
            t.append("c %d" % sid)
            tasks.append(t)
        elif r.name == "w":
            t = ["st %d %d %d" % (sid, bid, i)]
            n = rng.choice([0, 5, 3000])
            if n:
                t.append("gt %d %d %s" % (sid, n, ";".join(row_text(rand_row(rng, odd)) for _ in range(2))))
            t.append("c %d" % sid)
            tasks.append(t)
        elif rng.random() < 0.5:
            tasks.append(["set %d %d z%d" % (bid, i, rng.choice([0, 1, 100, 70000, 5000000]))])
    return tasks


def big_workload(rng, schema, target=None):
    ids = cc.Ids()
    ai = len(schema.archives) - 1
    target = target or rng.choice([33 << 20, 34 << 20, (32 << 20) + rng.choice([-320, -8, 0, 8, 320]), 70 << 20, 5 << 20])
    tasks = big_tasks(rng, schema, schema.archives[ai], 1, ids, target)
    return "wide", ai, None, ["b 1 wide %d 0" % ai] + interleave(rng, tasks, rng.choice([0, 0.3, 0.8]))


class P11(CppCheck):
    prop = "P11"
    level = "exploration"
    always_nontrivial = True
    editor = staticmethod(vector_edit_cmds)
    stores = ["fc", "fc", "fc", "fc", "mem", "flt"]
    rule = ("one run = one seeded history of calls on the real C++ streams, vectors and structs - several resources interleaved, fields assigned in any order and repeatedly, "
            "vectors edited in memory, some streams crossing the 32 MB buffers - on file, in-memory or custom storage, with the disk accepting any part of each write; "
            "every run counts as non-trivial")
    measure = "distinct sequences of (call, resource)"

    def schema_ids(self):
        return CppCheck.schema_ids(self) + ["wide", "bits0", "bits1"]

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p11/%d" % (self.seed, i)
            rng = random.Random(seed)
            n = i // nworkers
            i += nworkers
            if n % 60 == 20:
                schema = self.schemas["wide"]
                name, ai, vals, wl = big_workload(rng, schema)
                mem = rng.random() < 0.2
                rules = []
                if not mem and rng.random() < 0.6:
                    rules.append([-1, KLASS["write"], "", rng.randint(0, 10), A_SHORT, rng.choice([1 << 20, 8191, 1]), 0, rng.choice([1, 3, 20])])
                yield dict(schema="wide", ai=ai, rules=rules, store="mem" if mem else "fc", cmds=wl)
                if stop():
                    return
                continue
            name = rng.choice([x for x in self.names if x != "wide"]) if rng.random() < 0.7 else rng.choice([self.names[0], "bits0", "bits1"])
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            vals = values_for(schema, arch, seed, rng, p_opt=0.9 if not name.startswith("bits") else 0.08, scale=rng.choice([None, None, None, 2, 100]) if rng.random() < 0.9 else 400)
            for k in range(4):
                ids = cc.Ids()
                tasks = stream_tasks(rng, schema, arch, vals, 1, ids, rng.choice([0, 0.3, 0.8]), rng.choice([0.2, 0.7]), self.editor)
                wl = ["b 1 %s %d 0" % (name, ai)] + interleave(rng, tasks, rng.choice([0.1, 0.5, 0.9]))
                store = rng.choice(self.stores)
                rules = []
                if store == "fc":
                    if rng.random() < 0.7:
                        rules.append([-1, KLASS["write"], "", rng.randint(0, 10), A_SHORT, rng.choice([1, 2, 7, 8, 9, 15, 100, 4096]), 0, rng.choice([0, 1, 5])])
                    if rng.random() < 0.3:
                        rules.append([-1, KLASS["write"], "", rng.randint(0, 30), A_ERRNO, 0, EINTR, rng.choice([1, 2])])
                yield dict(schema=name, ai=ai, rules=rules, store=store, cmds=wl)
                if stop():
                    return

    def commands(self, sc):
        st = {"fc": "S 0 fc @/d/a", "mem": "S 0 mem", "flt": "S 0 flt -1 0 -1 0 0"}[sc["store"]]
        o = ["B @/d", st] + cc.rule_cmds(sc["rules"]) + sc["cmds"] + ["L", "X"]
        o += ["o 90 %s %d 0" % (sc["schema"], sc["ai"]), "d 90"]
        if sc["store"] == "fc":
            o += ["S 91 fo @/d/a", "o 91 %s %d 91" % (sc["schema"], sc["ai"]), "d 91"]
        return o

    def judge(self, sc, root, cmds, resp, st, out):
        r = super().judge(sc, root, cmds, resp, st, out)
        if not r.violation:
            sig = " ".join(" ".join(c.split(" ")[:2]) for c in sc["cmds"])
            r.key = sc["schema"] + sc["store"] + hashlib.sha256(sig.encode()).hexdigest()[:16]
        return r
