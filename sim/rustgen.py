"""P33: flatdata::generate(), the helper of Rust build scripts: success means complete output for every schema, failures are reported."""
import os
import random
import shutil

from . import common, cppdrv, pylib, rustdrv
from .common import Check, Result, Violation
from .cppcheck import parse_log, rule_cmds
from .cppdrv import Driver, crash_text
from .simlib import A_ERRNO, KLASS

ENOENT, EIO, EACCES, EMFILE, ENOMEM, ENOSPC, EROFS, ENOTDIR = 2, 5, 13, 24, 12, 28, 30, 20
ERRS = {"stat": [EIO, EACCES, ENOMEM], "opendir": [EMFILE, EACCES, EIO], "mkdir": [ENOSPC, EACCES, EROFS, EIO]}
DIRS = ["", "", "", "a/", "a/b/", "a.b/", "deep/er/and/deeper/", "\u00fc/", "x.rs/", "d.flatdata/", "d.flatdata/e.flatdata/"]
STEMS = ["one", "two", "a.b", "Schema", "x=y", "\u00e9t\u00e9", ".hidden", "one.rs", "flatdata", "-g"]
OTHER = ["readme.txt", "flatdata", ".flatdata", "one.flatdata.bak", "two.FLATDATA", "three.flatdat", "four.flatdata~", "noextension", "a.flatdata.", "y.rs"]
REAL = ["namespace a { struct S { x : u32 : 7; } }", "namespace n { struct S { x : u32 : 7; y : i64; } archive A { v : vector< S >; @optional r : raw_data; } }"]


def hx(s):
    return "-" + s.encode().hex()


def out_of(rel):
    """where the output of a schema belongs: the same place, extension rs"""
    return rel[:-len("flatdata")] + "rs"


class P33(Check):
    prop = "P33"
    level = "exploration"
    isolate = False
    reducible = ("schemas", "other", "old", "rules", "plan")
    rule = ("one run = a tree of schemas among other files (or one schema file), a destination that is missing, empty or holds older outputs, and the real flatdata::generate() called on it twice: first with a generator "
            "that at chosen schemas exits with an error, writes half of its output, is killed by a signal or disappears, with obstacles in the destination, a missing interpreter or installer, and failing file "
            "operations, then with everything in order; results, outputs, the commands that ran and what is printed for cargo are compared with what the schemas call for; non-trivial = at least one failure or obstacle")
    measure = "distinct (shape of the tree, plan of the processes, faulted operations, obstacles, answer)"
    real = ("flatdata-rs: generate() (current tree)", "walkdir, Rust std", "in some runs flatdata-generator (current tree)")
    stub = ("the generator command, python3 -m venv and pip3 install: a program that does what the run's plan says (stub/generator.c)", "kernel file system calls of generate() below the scratch directory (interposed; real tmpfs behind them)")
    assumptions = ("the processes that are started do what they report",)

    def prepare(self):
        sid = "fixed"
        pylib.rendered(pylib.schema_by_id(sid), "rust")
        pylib.rendered(pylib.schema_by_id(sid), "py")
        self.exe = rustdrv.build([sid])
        src = os.path.join(common.VERIF, "stub", "generator.c")
        self.tool = common.build_once(os.path.join(common.BUILD, "genstub-%s" % common.file_hash(src)), lambda t: ["gcc", "-O1", "-w", "-o", t, src])
        self.want_real = {x: pylib.rendered(x, "rust") for x in REAL}
        self.drv = None

    # ------------------------------------------------------------ scenarios
    def tree(self, rng):
        names = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9])):
            n = rng.choice(DIRS) + rng.choice(STEMS) + ".flatdata"
            if n not in [x for x, _ in names]:
                names.append([n, rng.choice([0, 1, 40, 5000])])
        other = []
        for _ in range(rng.choice([0, 0, 1, 3])):
            n = rng.choice(DIRS) + rng.choice(OTHER)
            if n not in other:
                other.append(n)
        return names, other

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p33/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            schemas, other = self.tree(rng)
            base = dict(seed=seed, schemas=schemas, other=other, old=[], single=None, mode="bin", plan=[], rules=[], missing=False, real=False, dest=rng.choice(["o", "o", "new/o"]))
            if rng.random() < 0.06:
                base.update(real=True, schemas=[[n, k % 2] for n, k in schemas][:2])
            elif rng.random() < 0.35:
                base["mode"] = rng.choice(["venv", "venv", "path"])
            if schemas and rng.random() < 0.25:
                base["single"] = rng.choice(schemas)[0]
            if rng.random() < 0.03:
                base["missing"] = True
            for n, _ in schemas:
                if rng.random() < 0.2:
                    base["old"].append([out_of(n), rng.choice(["older", "longer", "empty"])])
            if rng.random() < 0.2:
                base["old"].append([rng.choice(["keep.rs", "a/keep.txt"]), "older"])
            yield base
            ops = self.profile(base)
            one = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, 1]] for e in ops for er in ERRS.get(e[2], [])]
            rng.shuffle(one)
            acts = lambda: rng.choice([["none", rng.choice([1, 2, 255])], ["part", rng.choice([1, 101])], ["full", rng.choice([1, 3, 139])], ["kill", rng.choice([9, 15, 6, 11])], ["vanish", 0]])
            for k in range(min(len(one), 6) + 10):
                if stop():
                    return
                sc = dict(base, rules=one[k] if k < min(len(one), 6) else [])
                if not sc["rules"] or rng.random() < 0.2:
                    x = rng.random()
                    if x < 0.6 and schemas and not sc["real"]:
                        sc["plan"] = [[n] + acts() for n, _ in rng.sample(schemas, rng.choice([1, 1, min(2, len(schemas))]))]
                    elif x < 0.75 and sc["mode"] != "bin":
                        sc["plan"] = [[rng.choice(["venv", "pip", "nopython"]), "fail", rng.choice([1, 2])]]
                    elif x < 0.85:
                        sc["plan"] = [["gen", rng.choice(["none", "noexec"]), 0]] if sc["mode"] == "bin" else [["nopython", "fail", 0]]
                    elif schemas:
                        n = out_of(rng.choice(schemas)[0])
                        if sc["single"]:
                            n = os.path.basename(out_of(sc["single"]))
                        sc["old"] = sc["old"] + [[n, "dir"] if rng.random() < 0.5 or "/" not in n else [n.split("/")[0], "file"]]
                    if rng.random() < 0.2 and one:
                        sc["rules"] = rng.choice(one)
                yield sc

    def root(self):
        return os.path.join(common.scratch(), "g%d" % os.getpid())

    def content(self, sc, n, k):
        if sc["real"]:
            return REAL[k % 2].encode()
        return random.Random(sc["seed"] + n).randbytes(k).hex().encode()

    def want(self, sc, n, k):
        if sc["real"]:
            return self.want_real[REAL[k % 2]].encode()
        return b"// rust\n" + self.content(sc, n, k)

    # ------------------------------------------------------------ one run
    def lay(self, sc, root, clean):
        """everything the call finds"""
        s = os.path.join(root, "s")
        if not clean:
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(s)
            for n, k in sc["schemas"]:
                self.file(os.path.join(s, n), self.content(sc, n, k))
            for n in sc["other"]:
                self.file(os.path.join(s, n), b"other")
            d = os.path.join(root, sc["dest"])
            for n, how in sc["old"]:
                p = os.path.join(d, n)
                try:
                    if how == "dir":
                        self.file(os.path.join(p, "keep"), b"kept")
                    else:
                        self.file(p, {"older": b"old", "longer": b"old" * 9000, "empty": b"", "file": b"in the way"}[how])
                except OSError:
                    pass
            os.makedirs(os.path.join(root, "path"))
        else:
            d = os.path.join(root, sc["dest"])
            for n, how in sc["old"]:
                p = os.path.join(d, n)
                if how == "dir":
                    shutil.rmtree(p, ignore_errors=True)
                elif how == "file" and os.path.isfile(p):
                    os.unlink(p)
        plan = [] if clean else sc["plan"]
        gone = {x[0] for x in plan}
        for link, there in [("stub", True), ("path/flatdata-generator", True), ("gen", "gen" not in gone), ("path/python3", "nopython" not in gone)]:
            p = os.path.join(root, link)
            if os.path.lexists(p):
                os.unlink(p)
            if there:
                os.symlink(self.tool if link == "stub" else os.path.join(root, "stub"), p)
        if sc["real"]:
            p = os.path.join(root, "stub")
            os.unlink(p)
            self.file(p, ("#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 exec %s -B %s \"$@\"\n" % (common.PY, os.path.join(common.REPO, "flatdata-generator", "generator.py"))).encode())
            os.chmod(p, 0o755)
        if any(x[:2] == ["gen", "noexec"] for x in plan):
            self.file(os.path.join(root, "gen"), b"#!/bin/sh\n")
        with open(os.path.join(root, "plan"), "w") as f:
            for x in plan:
                f.write("%s %s %d\n" % (x[0] if x[0] in ("venv", "pip", "gen", "nopython") else os.path.join(s, x[0]).encode().hex(), x[1], x[2]))
        self.file(os.path.join(root, "log"), b"")

    @staticmethod
    def file(p, b):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b)

    def call(self, sc, root):
        s = os.path.join(root, "s")
        if sc["missing"]:
            s = os.path.join(root, "not", "there")
        elif sc["single"]:
            s = os.path.join(s, sc["single"])
        src = os.path.join(root, "s") if sc["mode"] == "path" else ""
        return "G %s %s %s %s %s %s" % (hx(os.path.join(root, "gen") if sc["mode"] == "bin" else ""), hx(os.path.join(root, "path") + ":/usr/bin:/bin" if "nopython" not in [x[0] for x in sc["plan"]] else os.path.join(root, "path")),
                                        hx(src), hx(s), hx(os.path.join(root, sc["dest"])), hx(os.path.join(root, "printed")))

    def drive(self, cmds):
        if self.drv is None:
            self.drv = Driver(self.exe)
        resp, st, _ = self.drv.run(cmds)
        if st:
            raise Violation(crash_text(st, resp, cmds, self.drv.stderr()))
        return [x.split(" ", 1)[1] if x.startswith("H") else x for x in resp]

    def profile(self, sc):
        root = self.root()
        try:
            self.lay(sc, root, False)
            return [e for e in parse_log(self.drive(["B " + root, self.call(sc, root), "L", "E"])[2])[2] if e[2] in ERRS]
        except Violation:
            return []
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def outputs(self, sc):
        if sc["missing"]:
            return {}
        if sc["single"]:
            return {os.path.basename(out_of(n)): (n, k) for n, k in sc["schemas"] if n == sc["single"]}
        return {out_of(n): (n, k) for n, k in sc["schemas"]}

    def execute(self, sc):
        root = self.root()
        if sc["single"] and sc["single"] not in [n for n, _ in sc["schemas"]]:
            return Result(key="trivial")
        trace, kinds = [], {}
        try:
            self.lay(sc, root, False)
            before = self.files(root, sc)
            r = self.drive(["B " + root] + rule_cmds(sc["rules"]) + [self.call(sc, root), "L", "E"])
            ans, log = r[-3], parse_log(r[-2])
            kinds.update(log[1])
            hit = [e for e in log[2] if e[6]]
            trace.append("generate: " + self.shown(ans))
            trace += ["%d %s %s -> %s" % (e[0], e[2], e[3].replace(root, ""), e[6]) for e in hit]
            self.judge(sc, root, before, ans, bool(hit), False)
            self.lay(sc, root, True)
            before = self.files(root, sc)
            clean = dict(sc, plan=[])
            ans2 = self.drive([self.call(clean, root)])[0]
            trace.append("again, everything in order: " + self.shown(ans2))
            self.judge(clean, root, before, ans2, False, True)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=True, trace=trace, stats={"seeds": 1})
        finally:
            shutil.rmtree(root, ignore_errors=True)
        for x in sc["plan"]:
            kinds["process_" + x[1]] = kinds.get("process_" + x[1], 0) + 1
        for n, how in sc["old"]:
            if how in ("dir", "file"):
                kinds["obstacle"] = kinds.get("obstacle", 0) + 1
        nontriv = bool(kinds)
        key = "|".join([str(len(sc["schemas"])), sc["mode"], str(sc["plan"]), str(sc["old"]), str([(e[2], e[3].replace(root, ""), e[6]) for e in hit]), ans.split(" ")[0]])
        return Result(key=key if nontriv else "trivial", nontrivial=nontriv, trace=trace, stats={"ops": log[0], "faults": kinds, "seeds": 1})

    def shown(self, a):
        return " ".join(bytes.fromhex(x[1:]).decode().replace(self.root(), "") if x.startswith("-") else x for x in a.split(" "))

    def files(self, root, sc):
        out = {}
        for top in {"s", sc["dest"]}:
            for d, _, names in os.walk(os.path.join(root, top)):
                for n in names:
                    p = os.path.join(d, n)
                    if os.path.isfile(p):
                        with open(p, "rb") as f:
                            out[os.path.relpath(p, root)] = f.read()
        return out

    def judge(self, sc, root, before, ans, hit, clean):
        what = "called again with everything in order, " if clean else ""
        outs, dest, s = self.outputs(sc), sc["dest"] + "/", os.path.join(root, "s")
        after = self.files(root, sc)
        failing = {x[0] for x in sc["plan"] if x[1] in ("none", "part", "full", "kill")}
        asked = {n for n, _ in outs.values()}
        obstacle = not clean and any(h in ("dir", "file") for _, h in sc["old"])
        broken = {x[0] for x in sc["plan"] if x[0] in ("venv", "pip", "gen", "nopython")} | {"vanish" for x in sc["plan"] if x[1] == "vanish"}
        with open(os.path.join(root, "printed"), "rb") as f:
            printed = f.read().decode().splitlines()
        told = [x[len("cargo:rerun-if-changed="):] for x in printed if x.startswith("cargo:rerun-if-changed=")]
        if ans == "panic":
            raise Violation("panic: %sgenerate() panics" % what)
        # nothing but the outputs (and what the installers leave) changes
        for n in sorted(set(before) | set(after)):
            if before.get(n) == after.get(n) or n.startswith(dest) and (n[len(dest):] in outs or n.startswith(dest + "bin/")):
                continue
            raise Violation("foreign-file: %sgenerate() %s %s" % (what, "creates" if n not in before else "removes" if n not in after else "changes", n))
        # what cargo is told: schemas whose output is complete, and the source of the generator
        for p in told:
            n = os.path.relpath(p, s)
            if n == "." and sc["mode"] == "path":
                continue
            o = [o for o, (m, _) in outs.items() if m == n]
            if not o:
                raise Violation("wrong-print: %scargo is told to watch %s, which is no schema" % (what, n))
            if after.get(dest + o[0]) != self.want(sc, *outs[o[0]]):
                raise Violation("incomplete: %sthe schema %s is reported as generated, its output is not complete" % (what, n))
        if ans == "ok":
            if failing & asked:
                raise Violation("swallowed: %sgenerate() succeeds although the generator failed for %s" % (what, sorted(failing & asked)))
            if sc["missing"]:
                raise Violation("swallowed: %sgenerate() succeeds for schemas that do not exist" % what)
            for o, (n, k) in sorted(outs.items()):
                if after.get(dest + o) != self.want(sc, n, k):
                    raise Violation("incomplete: %sgenerate() succeeds, the output %s of %s is %s" % (what, o, n, "missing" if dest + o not in after else "not complete"))
                if os.path.join(s, n) not in told:
                    raise Violation("wrong-print: %scargo is not told to watch the schema %s" % (what, n))
            self.commands(sc, root, outs, what)
            if sc["mode"] == "path" and s not in told:
                raise Violation("wrong-print: %scargo is not told to watch the source of the generator" % what)
            return
        if not (failing & asked or broken or hit or obstacle or sc["missing"]):
            raise Violation("spurious-failure: %sgenerate() answers %s" % (what, self.shown(ans)))
        if hit or obstacle or sc["missing"]:
            return
        t = ans.split(" ")
        if t[0] == "failure":
            n, d = (bytes.fromhex(x[1:]).decode() for x in t[1:3])
            rel = os.path.relpath(n, s)
            if rel not in asked or not (rel in failing or broken):
                raise Violation("wrong-error: %sthe failure is blamed on %s" % (what, rel))
            if os.path.relpath(d, os.path.join(root, sc["dest"])) not in [o for o, (m, _) in outs.items() if m == rel]:
                raise Violation("wrong-error: %sthe output of %s is said to be %s" % (what, rel, os.path.relpath(d, root)))
            if t[3] != "true":
                raise Violation("wrong-error: %sthe message names neither the schema nor the output" % what)
        elif t[0] == "python" and not broken & {"nopython", "venv"} or t[0] == "io":
            raise Violation("wrong-error: %sgenerate() answers %s" % (what, self.shown(ans)))

    def commands(self, sc, root, outs, what):
        if sc["real"]:
            return
        with open(os.path.join(root, "log")) as f:
            ran = [[x.split(" ")[0]] + [bytes.fromhex(a).decode() for a in x.split(" ")[1:]] for x in f.read().splitlines()]
        d = os.path.join(root, sc["dest"])
        want = sorted(os.path.join(root, "s", n) for n, _ in outs.values())
        gens = [a for a in ran if a[0] in ("gen", "flatdata-generator")]
        right = os.path.join(root, "gen") if sc["mode"] == "bin" else os.path.join(root, sc["dest"], "bin", "flatdata-generator")
        for a in gens:
            if a[1] != right:
                raise Violation("wrong-command: %sthe generator started is %s" % (what, os.path.relpath(a[1], root)))
        got = sorted(dict(zip(a[2::2], a[3::2])).get("-s", "") for a in gens)
        if got != want:
            raise Violation("wrong-command: %sthe generator ran for %s instead of %s" % (what, [os.path.relpath(x, root) for x in got], [os.path.relpath(x, root) for x in want]))
        tools = [a for a in ran if a[0] in ("python3", "pip3")]
        if sc["mode"] == "bin" and tools:
            raise Violation("wrong-command: %sthe generator is given, and %s is started nevertheless" % (what, tools[0][0]))
        if sc["mode"] == "path" and not any(a[0] == "pip3" and a[-1] == os.path.realpath(os.path.join(root, "s")) for a in tools):
            raise Violation("wrong-command: %sthe generator is not installed from the given source" % what)
