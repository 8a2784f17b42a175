"""P19: the same operations on in-memory and on file storage."""
import hashlib
import random
import zlib

from . import common
from . import cppcheck as cc
from .common import Result, Violation
from .cppcheck import CppCheck, interleave, values_for
from .cppstream import stream_tasks
from .cppdrv import crash_text


class P19(CppCheck):
    prop = "P19"
    level = "exploration"
    always_nontrivial = True
    rule = ("one run = one seeded sequence of storage, builder, stream and reader operations executed by the real C++ library once on a file storage (over the simulated disk) and once on an "
            "in-memory storage; every answer and every stored resource is compared, and both are judged by the reference model; every run counts as non-trivial")
    measure = "distinct sequences of (operation, object)"

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p19/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = rng.choice(self.names) if rng.random() < 0.7 else self.names[0]
            for k in range(3):
                yield dict(schema=name, cmds=self.sequence(rng, name, seed))
                if stop():
                    return

    def sequence(self, rng, name, seed):
        schema = self.schemas[name]
        ai = len(schema.archives) - 1
        ids = cc.Ids()
        # archives: the root, possibly a second one (or the same one again) in a directory
        dirs = [("0", "")]
        pre, tasks = [], []
        for _ in range(rng.choice([0, 0, 1, 2])):
            d = ids()
            key = rng.choice(["dir", "x", "sub.d", "dir2", "d i r".replace(" ", "_")])
            if any(k == key for _, k in dirs):
                pre.append("SD %d 0 %s %s" % (d, key, rng.choice("co")))
                continue
            pre += ["SD %d 0 %s o" % (d, key), "ex 0 %s" % key] if rng.random() < 0.5 else []
            pre += ["SD %d 0 %s c" % (d, key), "ex 0 %s" % key]
            dirs.append((str(d), key))
        written = {}
        keys = ["nothing", "sub", "dir", "x", "di"]
        for sid, key in dirs:
            if sid != "0" and rng.random() < 0.4:
                continue
            a = ai if sid == "0" or rng.random() < 0.5 else 0
            arch = schema.archives[a]
            written[sid] = a
            vals = values_for(schema, arch, seed + sid, rng, p_opt=0.7)
            for r in list(vals):
                if rng.random() < 0.15:
                    del vals[r]       # incomplete archives too
            b = ids()
            ts = self.tasks(rng, schema, arch, vals, b, ids)
            # answers to what must be rejected
            b2 = ids()
            k = rng.randrange(len(arch.resources))
            again = ["b %d %s %d %s" % (b2, name, a, sid)]
            for r in rng.sample(range(len(arch.resources)), min(2, len(arch.resources))):
                x = arch.resources[r]
                if x.kind == "multivector":
                    again.append("st %d %d %d" % (ids(), b2, r))
                elif x.kind != "archive":
                    again.append("set %d %d %s" % (b2, r, "x00" if x.kind == "raw_data" else ",".join(["0"] * len(schema.struct(x.types[0]).fields))))
            body = interleave(rng, ts, rng.choice([0, 0.3, 0.8]))
            cmds = ["b %d %s %d %s" % (b, name, a, sid)] + body
            cmds = cmds + again
            tasks.append(cmds)
            keys += [r.name for r in arch.resources] + [arch.name + ".archive"] + ["%s/%s" % (key, arch.resources[0].name) if key else "sub"]
            tasks.append(["@o %d %s %d %s" % (ids(), name, a, sid) for _ in range(rng.choice([1, 2, 3]))])
        own = []
        for j in range(rng.choice([0, 1, 2])):
            k = "own%d" % j
            sid = rng.choice(dirs)[0]
            own += ["ex %s %s" % (sid, k), "rx %s %s sch%d" % (sid, k, j), "wr %s %s sch%d %s" % (sid, k, j, rng.choice(["x", "x01", "z77", "z5000"])), "ex %s %s" % (sid, k),
                    "rx %s %s sch%d" % (sid, k, j), "rx %s %s other" % (sid, k), "rs %s %s" % (sid, k)]
        if own:
            tasks.append(own)
        tasks.append(["@ex %s %s" % (rng.choice(dirs)[0], rng.choice(keys)) for _ in range(rng.choice([0, 3, 8]))])
        tasks.append(["@rs %s %s" % (rng.choice(dirs)[0], rng.choice(keys)) for _ in range(rng.choice([0, 2, 4]))])
        mixed = interleave(rng, tasks, rng.choice([0.05, 0.3, 0.7]))
        # nothing is read while it is being written
        out, open_streams, wait = list(pre), set(), []
        for c in mixed:
            t = c.split(" ")
            if t[0] == "st":
                open_streams.add(t[1])
            if c.startswith("@"):
                c = c[1:]
                wait.append(c)
                if t[0] == "@o":
                    wait += ["d " + t[1], "ds " + t[1]]
            else:
                out.append(c)
                if t[0] in ("c", "drop"):
                    open_streams.discard(t[1])
            if not open_streams and wait:
                out += wait
                wait = []
        out += wait
        # in the end: everything that is stored
        for sid, key in dirs:
            for a in schema.archives:
                for n in [a.name + ".archive"] + [r.name for r in a.resources] + [r.name + "_index" for r in a.resources if r.kind == "multivector"]:
                    out += ["ex %s %s" % (sid, n), "rs %s %s" % (sid, n), "rd %s %s" % (sid, n)]
            o = ids()
            out += ["o %d %s %d %s" % (o, name, written.get(sid, ai), sid), "d %d" % o, "ds %d" % o]
        return out

    def tasks(self, rng, schema, arch, vals, b, ids):
        return stream_tasks(rng, schema, arch, vals, b, ids, 0.2, 0.3)

    def final(self, sc, root, m, cmds, resp):
        self.check_disk(root, m, stray=False)      # the sequence writes own resources of its own, too

    def execute(self, sc):
        both = []
        for store in ("S 0 fc @/d/a", "S 0 mem"):
            root = self.fresh_root()
            cmds = [c.replace("@", root) for c in ["B @/d", store] + sc["cmds"] + ["L", "X"]]
            resp, st, out = self.driver().run(cmds)
            try:
                r = self.judge(dict(sc, store=store), root, cmds, resp, st, out)
            finally:
                import shutil
                shutil.rmtree(root, ignore_errors=True)
            if r.violation:
                r.violation = r.violation + (" (file storage)" if "fc" in store else " (in-memory storage)")
                return r
            both.append((cmds, resp, r))
        for k, (a, b) in enumerate(zip(both[0][1], both[1][1])):
            if not 2 <= k < 2 + len(sc["cmds"]):
                continue
            x, y = a.split(" ", 1)[1], b.split(" ", 1)[1]
            if x != y:
                r = both[0][2]
                return Result(violation="different: %s answers %s on file storage and %s on in-memory storage" % (sc["cmds"][k - 2][:120], x[:150], y[:150]), key="violation",
                              nontrivial=True, trace=["%s => %s | %s" % (c[:120], p.split(" ", 1)[1][:120], q.split(" ", 1)[1][:120]) for c, p, q in zip(sc["cmds"][:k - 1], both[0][1][2:], both[1][1][2:])],
                              stats=r.stats)
        r = both[0][2]
        sig = " ".join(" ".join(c.split(" ")[:3]) for c in sc["cmds"])
        r.key = sc["schema"] + hashlib.sha256(sig.encode()).hexdigest()[:16]
        r.nontrivial = True
        return r
