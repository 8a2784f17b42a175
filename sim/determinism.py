"""P13: what is generated depends on the schema alone."""
import difflib
import json
import os
import random
import shutil
import subprocess

from . import common, pylib
from .common import Check, Result
from .procgen import INVALID, SIMPLE, TARGETS

BASE = {"PYTHONHASHSEED": "0"}


class World:
    """a subprocess with its own interpreter settings (sim/genworld.py)"""

    def __init__(self, env, warm):
        e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "SIM_", "TZ"))}
        e.update(env)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["LD_PRELOAD"] = common.shim()
        self.p = subprocess.Popen([common.PY, os.path.join(common.VERIF, "sim", "genworld.py"), common.BUILD, pylib.gen_hash()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=e,
                                  stderr=subprocess.DEVNULL, cwd="/")
        self.p.stdin.write(json.dumps(warm).encode() + b"\n")

    def ask(self, req):
        self.p.stdin.write(json.dumps(req).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError("world ended with %s" % self.p.wait())
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.stdout.close()
        self.p.wait()


class P13(Check):
    prop = "P13"
    isolate = False
    reducible = ("acts",)
    rule = ("one run = one history of 3 to 12 actions (rendering with new or used engines, executing and importing generated Python code, opening an archive with it, running the command, refused schemas, several threads that a "
            "seeded scheduler interleaves line by line, changes of locale, environment, random state and garbage collection) in an interpreter with a seeded hash seed, locale, optimisation level, clock and host name; every product is "
            "compared with that of a fresh process with hash seed 0; non-trivial = more than one action or another interpreter setting")
    measure = "distinct (interpreter settings, history of actions)"
    real = ("flatdata-generator: Engine, all generators and templates, app.main (current tree)", "flatdata-py: Structure, Archive, resources under the generated classes", "CPython")
    stub = ("clock and host name (libc interposition)", "jinja2 template compilation (real, once per template text)", "thread scheduling (trace hook)")

    def prepare(self):
        n = 5 if self.tier == "quick" else 40
        rng = random.Random("p13/%d" % self.seed)
        common.shim()
        self.texts, self.dirs, self.archs = {}, {}, {}
        for i, t in enumerate(SIMPLE[:2]):
            self.texts["s%d" % i] = t
        sids = ["fixed", "pyfixed"] + [["rnd", self.seed * 1000 + i, i % 2] for i in range(n)] + [["multi", self.seed * 1000 + i] for i in range(max(2, n // 4))]
        root = common.scratch() + "/arch"
        pylib.gen_hash()
        from concurrent.futures import ThreadPoolExecutor
        for i, sid in enumerate(sids):
            s = pylib.schema_by_id(sid)
            self.texts["g%d" % i] = s.text()
            self.archs["g%d" % i] = [a.name for a in s.archives]
            if sid[0] == "rnd":        # other contents under the same names
                self.texts["v%d" % i] = s.text().replace(s.ns, "same")
                self.archs["v%d" % i] = [a.name for a in s.archives]
        d = os.path.join(common.REPO, "test_cases")
        real = sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(".flatdata")) + [os.path.join(common.REPO, "examples", "coappearances", "coappearances.flatdata")]
        for i, p in enumerate(rng.sample(real, 8) if self.tier == "quick" else real):
            with open(p) as f:
                self.texts["r%d" % i] = f.read()
        warm = pylib.schema_by_id("fixed").text()
        self.warm = warm
        # the reference: every product in a fresh process
        # the first world fills the template cache for the others
        w0 = World(BASE, warm)
        w0.ask(self.request([], common.scratch()))
        w0.close()
        items = [["render", t, g, False] for t in self.texts for g in TARGETS] + [["classes", t, False] for t in self.texts]
        items += [["module", t, a, False] for t in self.archs for a in [None] + self.archs[t]]
        self.ref, self.full = {}, {}

        def part(k):
            w = World(BASE, warm)
            out = []
            for a in items[k::common.NCPU]:
                ans = w.ask(self.request([a], common.scratch() + "/w%d" % k))
                out.append((a, ans))
            w.close()
            return out
        with ThreadPoolExecutor(common.NCPU) as ex:
            got = [x for p in ex.map(part, range(common.NCPU)) for x in p]
        for a, ans in got:
            # an action failing in a fresh process has no reference and fails in the search as well
            for k, v in ans.get("out", ()):
                self.ref[k] = v
        # archives for the schemas whose Python bindings exist
        for t, sid in zip([x for x in self.texts if x.startswith("g")], sids):
            s = pylib.schema_by_id(sid)
            if sid[0] == "multi" or any(r.kind == "archive" for a in s.archives[-1:] for r in a.resources):
                continue
            arch = s.root()
            path = "%s/%s" % (root, t)
            vals = pylib.values(s, arch, "p13/%d/%s" % (self.seed, t), 3)
            try:
                pylib.write_dir(path, pylib.expected_files(s, arch, vals))
            except Exception:
                continue
            self.dirs[t] = [arch.name, path]
        w = World(BASE, warm)
        for t in list(self.dirs):
            ans = w.ask(self.request([["open", t, False]], common.scratch()))
            if "error" not in ans:
                self.ref["o/" + t] = ans["out"][0][1]
        w.close()
        self.worlds = {}

    def request(self, acts, scratch, full=False):
        os.makedirs(scratch, exist_ok=True)
        used = json.dumps(acts)
        return {"acts": acts, "texts": {k: v for k, v in self.texts.items() if '"%s"' % k in used}, "dirs": self.dirs, "scratch": scratch, "full": full}

    # ---------------------------------------------------------------- scenarios
    def settings(self, rng):
        e = {"PYTHONHASHSEED": str(rng.randrange(1 << 32))}
        if rng.random() < 0.5:
            e["LC_ALL"] = rng.choice(["C", "POSIX", "C.UTF-8", "en_US.ISO-8859-1"])
            e["PYTHONUTF8"] = rng.choice(["0", "0", "1"])
            e["PYTHONCOERCECLOCALE"] = rng.choice(["0", "1"])
        if rng.random() < 0.3:
            e["PYTHONOPTIMIZE"] = "1"
        if rng.random() < 0.5:
            e["TZ"] = rng.choice(["Asia/Tokyo", "America/New_York", "XYZ+5"])
            e["SIM_CLOCK_SKEW"] = str(rng.choice([-1, 1]) * rng.randrange(86400 * 4000))
        if rng.random() < 0.5:
            e["SIM_HOST"] = "host%d" % rng.randrange(100)
            e["USER"] = e["LOGNAME"] = "user%d" % rng.randrange(100)
            e["HOME"] = "/nonexistent%d" % rng.randrange(100)
        return e

    def action(self, rng, texts, nest=False):
        k = rng.random()
        t = rng.choice(texts)
        reuse = rng.random() < 0.6
        if k < 0.42:
            return ["render", t, rng.choice(TARGETS), reuse]
        if k < 0.55:
            return ["classes", t, reuse]
        if k < 0.65:
            ts = [x for x in texts if x in self.archs]
            if ts:
                t = rng.choice(ts)
                return ["module", t, rng.choice([None] + self.archs[t]), reuse]
        if k < 0.75:
            ts = [x for x in texts if x in self.dirs]
            if ts:
                return ["open", rng.choice(ts), reuse]
        if nest:
            return ["render", t, rng.choice(TARGETS), reuse]
        if k < 0.82:
            return ["app", t, rng.choice(TARGETS)]
        if k < 0.88:
            return ["bad", rng.choice(INVALID)]
        if k < 0.93:
            return rng.choice([["chdir", "/tmp"], ["environ", rng.choice(["LANG", "LC_ALL", "USER", "COLUMNS", "FLATDATA"]), rng.choice(["C", "10", "x"])], ["random", rng.randrange(99)], ["gc", rng.choice(["now", "off", "often"])],
                               ["locale", rng.choice(["C", "C.UTF-8", ""])]])
        same = rng.random() < 0.6
        n = rng.choice([2, 2, 3])
        acts = [self.action(rng, [t] if same else texts, True) for _ in range(n)]
        return ["threads", rng.randrange(1 << 30), rng.choice([1, 5, 20, 20, 100]), [[a] for a in acts]]

    def scenarios(self, worker, nworkers, stop):
        i = worker
        names = sorted(self.texts)
        while True:
            seed = "%d/p13/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            env = self.settings(rng)
            for k in range(30 if self.tier == "quick" else 80):
                texts = rng.sample(names if rng.random() < 0.6 else [x for x in names if x[0] == "v"], rng.choice([1, 2, 2, 4]))
                acts = []
                for _ in range(rng.choice([1, 2, 3, 5, 8])):
                    a = self.action(rng, texts)
                    if env.get("PYTHONUTF8") == "0" and rng.random() < 0.2:
                        a = ["app", rng.choice(texts), rng.choice(TARGETS)]
                    acts.append(a)
                    if a[0] in ("render", "classes") and rng.random() < 0.3:
                        acts.append(a)
                yield {"env": env, "acts": acts, "seed": seed}
                if stop():
                    return

    # ---------------------------------------------------------------- execution
    def world(self, env):
        key = (os.getpid(), json.dumps(env, sort_keys=True))
        if key not in self.worlds:
            for k in list(self.worlds):
                w = self.worlds.pop(k)
                if k[0] == os.getpid():
                    w.close()
            self.worlds[key] = World(env, self.warm)
        return self.worlds[key]

    def execute(self, sc):
        scratch = common.scratch() + "/x%d" % os.getpid()
        shutil.rmtree(scratch, ignore_errors=True)
        w = self.world(sc["env"])
        ans = w.ask(self.request(sc["acts"], scratch))
        nontriv = len(sc["acts"]) > 1 or sc["env"] != BASE
        stats = {"ops": len(sc["acts"]), "seeds": 1, "context_switches": ans.get("switches", 0), "products": len(ans.get("out", ())),
                 "faults": {"hash_seed": 1, "locale": int("LC_ALL" in sc["env"]), "clock_jump": int("SIM_CLOCK_SKEW" in sc["env"]), "optimised_interpreter": int("PYTHONOPTIMIZE" in sc["env"]), "host_and_user": int("SIM_HOST" in sc["env"]),
                            "refused_schemas": sum(a[0] == "bad" for a in sc["acts"]), "thread_switches": ans.get("switches", 0)}}
        trace = ["settings %s" % sc["env"]] + [str(a)[:200] for a in sc["acts"]]
        if "error" in ans:
            return Result(violation="failure: an action raises: %s" % ans["error"], key="violation", trace=trace, stats=stats, nontrivial=nontriv)
        for k, v in ans["out"]:
            if self.ref.get(k) != v:
                return Result(violation=self.difference(sc, k, scratch), key="violation", trace=trace, stats=stats, nontrivial=nontriv)
        key = json.dumps([sc["env"], [a[:1] + a[1:4] for a in sc["acts"]]]) if nontriv else "trivial"
        import hashlib
        return Result(key=hashlib.sha1(key.encode()).hexdigest()[:16], nontrivial=nontriv, trace=trace, stats=stats)

    def difference(self, sc, item, scratch):
        kind = item.split("/")
        what = {"r": "the generated %s code" % kind[-1], "i": "what the generated Python classes present", "m": "the Python module", "o": "what an archive presents through the generated classes"}.get(kind[0], item)
        try:
            got = [v for k, v in self.world(sc["env"]).ask(self.request(sc["acts"], scratch, True))["out"] if k == item]
            w = World(BASE, self.warm)
            act = {"r": lambda: ["render", kind[1], kind[2], False], "i": lambda: ["classes", kind[1], False], "m": lambda: ["module", kind[1], None if kind[2] == "None" else kind[2], False], "o": lambda: ["open", kind[1], False]}[kind[0]]()
            want = w.ask(self.request([act], scratch, True))["out"][0][1]
            w.close()
            bad = [g for g in got if g != want]
            if not bad:
                return "differs: %s (only when looked at once)" % what
            if bad[0].startswith("!") and not want.startswith("!"):
                return "fails: %s raises %s instead" % (what, bad[0][1:])
            d = [x for x in difflib.unified_diff(want.splitlines(), bad[0].splitlines(), lineterm="", n=0) if not x.startswith(("---", "+++", "@@"))][:6]
            return "differs: %s is not what a fresh process produces: %s" % (what, " | ".join(x[:120] for x in d))
        except Exception as e:
            return "differs: %s (%s)" % (what, e)

    def shrinks(self, sc):
        if sc["env"] != BASE:
            yield dict(sc, env=BASE)
            for k in sc["env"]:
                if k != "PYTHONHASHSEED":
                    yield dict(sc, env={a: b for a, b in sc["env"].items() if a != k})
        for i, a in enumerate(sc["acts"]):
            if a[0] == "threads":
                for j in range(len(a[3])):
                    if len(a[3]) > 1:
                        yield dict(sc, acts=sc["acts"][:i] + [a[:3] + [a[3][:j] + a[3][j + 1:]]] + sc["acts"][i + 1:])
