"""P17: allocation failures at every allocation of the C++ library."""
import random

from . import cppcheck as cc
from .cppcheck import CppCheck, interleave, values_for
from .cppstream import stream_tasks

CALLS = ("S", "SD", "b", "bs", "set", "st", "g", "g0", "mg", "ma", "ma0", "c", "o", "ds", "pg", "prs", "prv", "ppo", "pset", "drop", "bd", "ax", "SX", "ex", "rs")


class P17(CppCheck):
    prop = "P17"
    level = "fault_enumeration"
    rule = ("one run = one seeded workload of the real C++ builder and reader on file or in-memory storage in which one chosen allocation (and possibly all following ones of that call) "
            "fails; the failed call is then repeated with memory available and the workload continues; all allocations of a workload are enumerated up to a per-call cap; "
            "non-trivial = the allocation was reached and failed")
    measure = "distinct (schema, storage, kind of call, index of the failed allocation in it, answer)"
    nrandom = {"quick": 5, "thorough": 19}

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p17/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = self.names[0] if rng.random() < 0.4 else rng.choice(self.names)
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            vals = values_for(schema, arch, seed, rng, p_opt=0.9, scale=rng.choice([1, 2, 3]))
            for r in arch.resources:
                if r.kind == "raw_data" and r.name in vals and rng.random() < 0.5:
                    vals[r.name] = rng.randbytes(rng.choice([0, 600, 9000]))
            ids = cc.Ids()
            wl = ["b 1 %s %d 0" % (name, ai)] + interleave(rng, stream_tasks(rng, schema, arch, vals, 1, ids, 0.2, 0.3), rng.choice([0.1, 0.6]))
            if rng.random() < 0.3:     # a stream given up
                k = [j for j, c in enumerate(wl) if c.startswith("c ")]
                if k:
                    j = rng.choice(k)
                    wl[j] = "drop " + wl[j].split(" ")[1]
            store = rng.choice(["fc", "mem"])
            tail = []
            if rng.random() < 0.5:
                tail.append("bd 1")
            if store == "fc":
                tail += ["S 7 fo @/d/a", "ex 7 %s.archive" % arch.name, "rs 7 %s.archive" % arch.name, "o 8 %s %d 7" % (name, ai), "ds 8", "ax 8", "SX 7"]
            else:
                tail += ["o 8 %s %d 0" % (name, ai), "ds 8", "ax 8"]
            wl = [{"fc": "S 0 fc @/d/a", "mem": "S 0 mem"}[store]] + wl + tail
            base = dict(schema=name, ai=ai, store=store, cmds=wl, at=-1, alloc=-1, len=1, rules=[])
            yield base
            counts = self.count(base)
            plans = []
            for k, n in counts.items():
                js = list(range(n)) if n <= 30 else sorted(set(list(range(12)) + [rng.randrange(n) for _ in range(18)]))
                for j in js:
                    plans.append((k, j, 1))
                    if rng.random() < 0.2:
                        plans.append((k, j, 100000))
            rng.shuffle(plans)
            for k, j, n in plans[:400]:
                yield dict(base, at=k, alloc=j, len=n)
                if stop():
                    return

    def count(self, sc):
        """allocations of every call of the workload"""
        cm, idx = [], []
        for k, c in enumerate(sc["cmds"]):
            if c.split(" ")[0] in CALLS:
                cm += ["af -1 0", c, "ac"]
                idx.append(k)
            else:
                cm.append(c)
        root, cmds, resp, st, out = self.raw_run(dict(sc, cmds=cm, at=-1))
        n = [int(r.split("allocs ")[1].split(" ")[0]) for c, r in zip(cmds, resp) if c == "ac"]
        return {k: x for k, x in zip(idx, n) if x}

    def script(self, sc):
        if sc["at"] < 0 or sc["at"] >= len(sc["cmds"]):
            return sc["cmds"]
        k = sc["at"]
        c = sc["cmds"][k]
        again = [] if c.split(" ")[0] in ("drop", "bd", "ax", "SX") else [c]
        return sc["cmds"][:k] + ["af %d %d" % (sc["alloc"], sc["len"]), c, "ac"] + again + sc["cmds"][k + 1:]

    def commands(self, sc):
        o = ["B @/d"] + self.script(sc) + ["L", "X"]
        if sc["store"] == "fc":
            return o + self.reopen(sc["schema"], sc["ai"])
        return o + ["o 90 %s %d 0" % (sc["schema"], sc["ai"]), "d 90", "ds 90"]

    def judge(self, sc, root, cmds, resp, st, out):
        r = super().judge(sc, root, cmds, resp, st, out)
        failed = any("failed " in x and " allocs " in x and not x.endswith("failed 0") for x in resp)
        r.nontrivial = failed
        if not r.violation:
            if failed:
                c = sc["cmds"][sc["at"]].split(" ")[0]
                a = next(resp[k + 1].split(" ", 1)[1][:14] for k, x in enumerate(cmds) if x.startswith("af ") and k + 1 < len(resp))
                n = sum(int(x.split("failed ")[1]) for x in resp if "failed " in x and " allocs " in x)
                r.stats["faults"] = dict(r.stats.get("faults", {}), failed_allocation=n)
                res = sc["cmds"][sc["at"]].split(" ")[:4]
                r.key = "|".join([sc["schema"], sc["store"], c, ",".join(res[1:]) if c in ("st", "set", "bs", "pset") else "", str(sc["alloc"]), "many" if sc["len"] > 1 else "one", a])
            else:
                r.key = "trivial"
        return r

    def shrinks(self, sc):
        cm, k = sc["cmds"], sc["at"]
        n = len(cm)
        size = n // 2
        while size >= 1:
            for i in range(0, n, size):
                j = min(n, i + size)
                if i <= k < j:
                    continue
                yield dict(sc, cmds=cm[:i] + cm[j:], at=k - (j - i) if j <= k else k)
            size //= 2
    reducible = ()
