"""P18: archives opened from the schema they carry."""
import gc
import os
import random
import shutil

from . import common, diskmodel as dm, pylib, simlib
from .common import Check, Result, Violation
from .cppcheck import values_for
from .py_read import PERRS, content, first_difference, py_expect, Odd
from .simlib import A_ERRNO, KLASS
from .tarcheck import pack, rand_pack


class P18(Check):
    prop = "P18"
    level = "exploration"
    preload = True
    isolate = False
    reducible = ("damage", "rules", "others")
    rule = ("one run = one to four stored archives of seeded schemas (nested namespaces, sub-archives) in one place - the same directory, below one another, or in a TAR file - one of which is opened by the real "
            "inspector through its directory, one of its files, a relative or bare name or the TAR file, with damage of the stored files (schema and signature above all) or I/O errors at chosen calls; "
            "non-trivial = several archives, a path that is not the plain directory, damage or a fault")
    measure = "distinct (schema, kind of path, archives in one place, damages, faulted operations, outcome)"
    real = ("flatdata-py: inspector.open_archive, Archive, resources, storages (current tree)", "flatdata-generator: parser and Python generator on the stored schema (rendered once per text)", "CPython io, mmap, tarfile")
    stub = ("kernel file system calls below the scratch directory (libc interposition; real tmpfs behind it)",)
    nrandom = {"quick": 8, "thorough": 40}

    def prepare(self):
        import multiprocessing as mp
        n = self.nrandom[self.tier]
        self.sids = ["fixed"] + [["multi", self.seed * 1000 + i] for i in range(n)]
        with mp.Pool(common.NCPU) as p:
            p.map(_warm, self.sids)
        import flatdata.lib.inspector  # noqa
        pylib.memo_engine()

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p18/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            sid = rng.choice(self.sids) if rng.random() < 0.85 else self.sids[0]
            schema = pylib.schema_by_id(sid)
            ai = rng.randrange(len(schema.archives)) if rng.random() < 0.3 else len(schema.archives) - 1
            base = dict(schema=sid, ai=ai, values=seed, scale=rng.choice([None, None, 0, 1, 3]), damage=[], rules=[], others=[])
            for k in range(6):
                others, names = [], {schema.archives[ai].name}
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    s2 = rng.choice(self.sids[1:])
                    sc2 = pylib.schema_by_id(s2)
                    a2 = rng.randrange(len(sc2.archives))
                    if sc2.archives[a2].name not in names and sid != "fixed":
                        names.add(sc2.archives[a2].name)
                        others.append([s2, a2, seed + "/%d" % len(others), rng.choice(["same", "same", "parent", "child"])])
                if rng.random() < 0.35:       # nothing to choose from where the path leads to, another archive next to it
                    others = [o[:3] + [rng.choice(["parent", "parent", "child"])] for o in others[:1]]
                form = rng.choice(["dir", "dir", "slash", "file", "file", "rel", "relfile", "bare", "barefile", "tar", "tar", "reltar", "baretar", "sub"])
                b = dict(base, others=others, form=form, pick=rng.random(), arg="none" if rng.random() < (0.2 if any(o[3] == "same" for o in others) else 0.6) else rng.choice(["name"] * 5 + ["wrong"]),
                         pack=rand_pack(rng, seed + "/%d" % k) if "tar" in form else None)
                if "tar" in form and b["pack"]["end"] == "garbage":
                    b["pack"]["end"] = "two"
                yield b
                if stop():
                    return
                files = self.target_files(b)
                sigs = [f for f in sorted(files) if ".archive" in f and "/" not in f] or sorted(files)
                for _ in range(10):
                    dmg = []
                    for _ in range(rng.choice([1, 1, 2])):
                        f = rng.choice(sigs if rng.random() < 0.7 else sorted(files))
                        n = len(files[f])
                        text = f.endswith(".schema")
                        dmg.append(rng.choice([["del", f], ["trunc", f, rng.choice([0, n - 1, n // 2, rng.randrange(n)])], ["flip", f, rng.randrange(n), 1 << rng.randrange(8 if not text else 7)],
                                               ["cut", f, rng.randrange(n)], ["dup", f, rng.randrange(n)], ["app", f, rng.choice(["\n", "x", "}", "\0", "archive Q { }"])], ["ext", f, 8],
                                               ["copy", f, rng.choice(sorted(files))], ["crlf", f], ["mkdir", f]]))
                    yield dict(b, damage=dmg)
                    if stop():
                        return
                ops = self.profile(b)
                plans = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, c]] for e in ops for er in dict(PERRS, stat=[5, 13, 40], seek=[5]).get(e[2], []) for c in (1, 0)]
                rng.shuffle(plans)
                # the first calls decide what is opened at all
                plans.sort(key=lambda p: rng.random() * (1 if p[0][0] < 12 else 3))
                for rules in plans[:15]:
                    yield dict(b, rules=rules)
                    if stop():
                        return

    def vals_of(self, sid, ai, values, scale=None):
        schema = pylib.schema_by_id(sid)
        return values_for(schema, schema.archives[ai], values, random.Random(values + "/opt"), scale=scale)

    def target_files(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        return dm.archive_files(schema, schema.archives[sc["ai"]], self.vals_of(sc["schema"], sc["ai"], sc["values"], sc["scale"]))

    def layout(self, sc):
        """-> (files below the scratch directory, dirs, damaged target files, target dirs)"""
        files = self.target_files(sc)
        dirs = dm.dirs_of(files)
        for d in sc["damage"]:
            dm.apply_damage(files, dirs, d)
        where = "t/arc"
        whole = {where + "/" + f: b for f, b in files.items()}
        wdirs = {where + "/" + d for d in dirs} | {where, "t"}
        for sid, ai, values, place in sc["others"]:
            s2 = pylib.schema_by_id(sid)
            pre = {"same": where + "/", "parent": "t/", "child": where + "/child_%s/" % s2.archives[ai].name}[place]
            for f, b in dm.archive_files(s2, s2.archives[ai], self.vals_of(sid, ai, values)).items():
                whole.setdefault(pre + f, b)
        return whole, wdirs | dm.dirs_of(whole), files, dirs

    def setup(self, sc, root):
        whole, wdirs, files, dirs = self.layout(sc)
        if sc["pack"]:
            pre = "t/arc/"
            inside = {f[len(pre):]: b for f, b in whole.items() if f.startswith(pre)}
            idirs = {d[len(pre):] for d in wdirs if d.startswith(pre)}
            tar, _ = pack(inside, idirs, sc["pack"])
            os.makedirs(os.path.join(root, "t"))
            with open(os.path.join(root, "t", "arc.tar"), "wb") as f:
                f.write(tar)
        else:
            dm.write_tree(root, whole, wdirs)
        return whole, files, dirs

    def path_of(self, sc, root, files):
        """(path to give, directory to be in, archive expected below the target)"""
        form = sc["form"]
        d = os.path.join(root, "t", "arc")
        flat = sorted(f for f in files if "/" not in f)
        if form in ("file", "relfile", "barefile"):
            f = flat[int(sc["pick"] * len(flat))] if flat else "nothing"
            return {"file": (d + "/" + f, "/"), "relfile": ("arc/" + f, root + "/t"), "barefile": (f, d)}[form]
        return {"dir": (d, "/"), "slash": (d + "/", "/"), "rel": ("t/arc", root), "bare": (".", d), "sub": (d, "/"), "tar": (d + ".tar", "/"), "reltar": ("t/arc.tar", root),
                "baretar": ("arc.tar", root + "/t")}[form]

    def open(self, sc, root, files):
        from flatdata.lib import inspector
        schema = pylib.schema_by_id(sc["schema"])
        path, cwd = self.path_of(sc, root, files)
        arg = {"none": None, "name": schema.archives[sc["ai"]].name, "wrong": "NoSuch"}[sc["arg"]]
        here = os.getcwd()
        os.chdir(cwd if os.path.isdir(cwd) else "/")
        # relative names are not seen by the simulator's prefix match
        try:
            return inspector.open_archive(path, arg)[0]
        finally:
            os.chdir(here)

    def root(self):
        return os.path.join(common.scratch(), "i%d" % os.getpid())

    def profile(self, sc):
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        whole, files, dirs = self.setup(sc, root)
        simlib.begin(root)
        try:
            self.open(sc, root, files)
        except Exception:
            pass
        finally:
            simlib.end()
            shutil.rmtree(root, ignore_errors=True)
        return simlib.log()

    def execute(self, sc):
        schema = pylib.schema_by_id(sc["schema"])
        arch = schema.archives[sc["ai"]]
        root = self.root()
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        whole, files, dirs = self.setup(sc, root)
        intact = self.target_files(sc)
        vals = py_expect(schema, arch, dm.Disk(intact))[0]
        # what the damaged files still say to a reader that knows the schema
        try:
            now, kinds, certain = py_expect(schema, arch, dm.Disk(files, dirs))
        except Odd:
            now, kinds, certain = None, set(), False
        simlib.begin(root, sc["rules"])
        err = a = None
        try:
            try:
                a = self.open(sc, root, files)
            except Exception as e:
                err = e
        finally:
            simlib.lib().sim_clear_rules()
            simlib.end()
        ops, fk, log = simlib.lib().sim_ops(), simlib.kinds(), simlib.log()
        hit = [e for e in log if e[6]]
        same = [o for o in sc["others"] if o[3] == "same"]
        stats = {"ops": ops, "faults": dict(fk), "seeds": 1}
        for d in sc["damage"]:
            stats["faults"]["damage_" + d[0]] = stats["faults"].get("damage_" + d[0], 0) + 1
        nontriv = bool(hit or sc["damage"] or sc["others"] or sc["form"] not in ("dir",))
        trace = ["path %s %s, archive %s, with %s" % (sc["form"], self.path_of(sc, root, files)[0].replace(root, ""), sc["arg"], [(o[3], pylib.schema_by_id(o[0]).archives[o[1]].name) for o in sc["others"]]),
                 "opened %s" % type(a).__name__ if err is None else "%s %s" % (type(err).__name__, str(err)[:150])] + ["%d %s %s -> %s" % (e[0], e[2], e[3], e[6]) for e in hit]
        verdict = None
        try:
            self.judge(sc, schema, arch, a, err, vals, now, kinds, certain, hit, same, files)
        except Violation as v:
            verdict = str(v)
        finally:
            a = None
            gc.collect() if hit else None
            shutil.rmtree(root, ignore_errors=True)
        if verdict:
            return Result(violation=verdict, key="violation", nontrivial=nontriv, trace=trace, stats=stats)
        key = "|".join([str(sc["schema"]), str(sc["ai"]), sc["form"], sc["arg"], str([o[:2] + o[3:] for o in sc["others"]]), ",".join("%s:%s" % (d[0], d[1]) for d in sc["damage"]),
                        ",".join(sorted("%s:%s:%s" % (e[0], e[2], e[3].split("/")[-1]) for e in hit))[:200], trace[1][:20]]) if nontriv else "trivial"
        return Result(key=key, nontrivial=nontriv, trace=trace, stats=stats)

    def judge(self, sc, schema, arch, a, err, vals, now, kinds, certain, hit, same, files):
        wrong_call = sc["arg"] == "wrong" or (sc["arg"] == "none" and bool(same))
        if err is not None:
            if wrong_call or hit or sc["damage"]:
                return
            raise Violation("spurious-failure: the inspector raises %s: %s for an intact archive" % (type(err).__name__, str(err)[:300]))
        if sc["arg"] == "wrong":
            raise Violation("wrong-archive: an archive that is not there was opened as %s" % type(a).__name__)
        if wrong_call and not sc["damage"] and not hit:
            raise Violation("wrong-archive: %s was opened although there are several archives and none was asked for" % type(a).__name__)
        want = schema.ns.replace(".", "_") + "_" + arch.name
        if type(a).__name__ != want:
            if wrong_call and sc["damage"]:
                return            # the damage left only the other archive
            raise Violation("wrong-archive: %s was opened instead of %s" % (type(a).__name__, want))
        # every resource it shows has the stored values
        self.shown(schema, arch, a, now if now is not None else {}, "", now is None)
        if not sc["damage"]:
            d = first_difference(vals, content(schema, arch, a, vals))
            if d:
                raise Violation("wrong-content: " + d)
        elif certain and not any(d[1].endswith(".archive.schema") for d in sc["damage"]):
            raise Violation("wrong-state: a damaged archive opens although it must raise one of %s" % sorted(kinds))

    def shown(self, schema, arch, a, exp, p, lenient):
        known = set(dir(a))
        for r in arch.resources:
            if r.name not in known:
                continue
            x = getattr(a, r.name)
            if x is None:
                continue
            if r.kind == "archive":
                if isinstance(exp.get(r.name), dict):
                    self.shown(schema, schema.archive(r.types[0]), x, exp[r.name], p + r.name + "/", lenient)
                elif not lenient:
                    raise Violation("wrong-content: %s%s is shown, it is not stored" % (p, r.name))
                continue
            if lenient or exp.get(r.name) is Ellipsis:
                continue
            try:
                got = pylib.read_res(schema, r, x)
            except Exception as e:
                raise Violation("unreadable: reading %s%s raises %s: %s" % (p, r.name, type(e).__name__, str(e)[:200]))
            if got != exp.get(r.name):
                raise Violation("wrong-content: %s%s shows %s, stored is %s" % (p, r.name, str(got)[:100], str(exp.get(r.name))[:100]))

    def shrinks(self, sc):
        if sc["form"] not in ("dir", "tar"):
            yield dict(sc, form="tar" if sc["pack"] else "dir")
        if sc["scale"] != 0:
            yield dict(sc, scale=0)


def _warm(sid):
    s = pylib.schema_by_id(sid)
    pylib.rendered(s, "py")
