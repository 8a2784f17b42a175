"""P15: C++ and Python on the same archives."""
import os
import random
import shutil

from . import common, cppcheck as cc, diskmodel as dm, pylib, simlib
from .common import Result, Violation
from .cppcheck import CppCheck, interleave, parse_log, rule_cmds, values_for
from .cppdrv import crash_text
from .cppstream import stream_tasks
from .py_read import content, first_difference
from .py_write import EINTR
from .simlib import A_ERRNO, A_SHORT, KLASS


def benign(rng):
    rules = []
    if rng.random() < 0.8:
        rules.append([-1, KLASS["write"], "", rng.randint(0, 12), A_SHORT, rng.choice([1, 2, 7, 8, 9, 15, 16, 100, 4096]), 0, rng.choice([0, 0, 1, 5])])
    if rng.random() < 0.4:
        rules.append([-1, KLASS["write"], "", rng.randint(0, 30), A_ERRNO, 0, EINTR, rng.choice([1, 2])])
    return rules


class P15(CppCheck):
    prop = "P15"
    level = "exploration"
    preload = True
    reducible = ("cmds", "order", "rules", "pyrules")
    rule = ("one run = the same values written by the real C++ builder (set, streamed, edited in memory, in a seeded interleaving) and by the real Python builder (seeded order), both over the "
            "simulated disk with short and interrupted writes, then every file compared and each archive read with the other language; schemas with sub-archives are written in C++ and read in "
            "Python; non-trivial = at least one short or interrupted write")
    measure = "distinct (schema, order of the writes in C++ and Python, kinds of disturbed writes)"
    real = CppCheck.real + ("flatdata-py: ArchiveBuilder, FileResourceWriter, Archive, resources, data_access (current tree)",)
    nrandom = {"quick": 7, "thorough": 23}

    def schema_ids(self):
        n = self.nrandom[self.tier]
        return ["fixed", "pyfixed", "bits0", "bits1"] + [["rnd", self.seed * 1000 + i, int(i % 3 != 0)] for i in range(n)]

    def prepare(self):
        super().prepare()
        import flatdata.lib  # noqa
        import flatdata.lib.file_resource_storage  # noqa
        import flatdata.lib.resource_storage  # noqa
        import flatdata.lib.file_resource_writer  # noqa

    def flat(self, name):
        return len(self.schemas[name].archives) == 1

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p15/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = self.names[1 + rng.randrange(3)] if rng.random() < 0.4 else rng.choice(self.names)
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            scale = rng.choice([None, None, None, 0, 1, 2, 200] if not name.startswith("bits") else [1, 3, 9])
            base = dict(schema=name, ai=ai, values=seed, scale=scale)
            vals = self.vals(base)
            for k in range(3):
                ids = cc.Ids()
                tasks = stream_tasks(rng, schema, arch, vals, 1, ids, rng.choice([0, 0.3]), 0)
                wl = ["b 1 %s %d 0" % (name, ai)] + interleave(rng, tasks, rng.choice([0, 0.4, 0.9]))
                order = [n for n in vals if arch.res(n).kind != "archive"]
                rng.shuffle(order)
                yield dict(base, cmds=wl, n=len(wl), order=order if self.flat(name) else [], rules=benign(rng), pyrules=benign(rng), form=rng.randrange(3))
                if stop():
                    return

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return values_for(schema, schema.archives[sc["ai"]], sc["values"], random.Random(sc["values"] + "/opt"), scale=sc["scale"])

    def commands(self, sc):
        return ["B @/d", "S 0 fc @/d/a"] + rule_cmds(sc["rules"]) + sc["cmds"] + ["L", "X"]

    def write_py(self, sc, schema, arch, vals, root):
        from flatdata.lib.resource_storage import ResourceStorage
        from flatdata.lib.file_resource_writer import FileResourceWriter
        d = os.path.join(root, "p")
        os.makedirs(d)
        simlib.begin(d, sc["pyrules"])
        try:
            b = pylib.cls(schema, arch.name, True)(ResourceStorage(FileResourceWriter(), os.path.join(d, "a")))
            for n in sc["order"]:
                r = arch.res(n)
                v = pylib.to_py(schema, r, vals[n])
                if r.kind == "raw_data" and sc["form"]:
                    v = (bytearray, memoryview)[sc["form"] - 1](v)
                b.set(n, v)
            b.finish()
        except Exception as e:
            raise Violation("spurious-failure: the Python builder raised %s: %s although nothing but short and interrupted writes happened" % (type(e).__name__, str(e)[:200]))
        finally:
            simlib.end()
        return simlib.lib().sim_ops(), simlib.kinds()

    def read_py(self, schema, arch, path, exp, who):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        try:
            a = pylib.cls(schema, arch.name)(FileResourceStorage(path))
            got = content(schema, arch, a, exp)
        except Exception as e:
            raise Violation("unreadable: Python raises %s: %s for the archive written by %s" % (type(e).__name__, str(e)[:200], who))
        d = first_difference(exp, got)
        if d:
            raise Violation("wrong-content: Python reading the archive of %s: %s" % (who, d))

    def expect_py(self, schema, arch, vals):
        out = {}
        for r in arch.resources:
            if r.name not in vals:
                out[r.name] = None
            elif r.kind == "archive":
                out[r.name] = self.expect_py(schema, schema.archive(r.types[0]), vals[r.name])
            else:
                out[r.name] = pylib.norm(r, vals[r.name])
        return out

    def final(self, sc, root, m, cmds, resp):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        vals = self.vals(sc)
        self.check_disk(root, m)
        cpp = pylib.read_dir(os.path.join(root, "d", "a"))
        whole = dm.archive_files(schema, arch, vals)
        complete = cpp == whole
        exp = self.expect_py(schema, arch, vals)
        if complete:
            self.read_py(schema, arch, os.path.join(root, "d", "a"), exp, "the C++ builder")
        elif m.fails == 0 and len(sc["cmds"]) == sc["n"]:
            for f in sorted(set(cpp) | set(whole)):
                if cpp.get(f) != whole.get(f):
                    raise Violation("wrong-bytes: %s of the C++ archive %s" % (f, "is missing" if f not in cpp else "is not expected" if f not in whole else "holds other bytes"))
        self.py_ops, self.py_kinds = 0, {}
        if not self.flat(sc["schema"]):
            return
        self.py_ops, self.py_kinds = self.write_py(sc, schema, arch, vals, root)
        py = pylib.read_dir(os.path.join(root, "p", "a"))
        for f in sorted(set(cpp) | set(py)):
            if cpp.get(f) != py.get(f) and f in whole:
                if f in cpp and f in py:
                    if cpp[f] != whole[f] and len(sc["cmds"]) != sc["n"]:
                        continue  # steps were taken out of the C++ run
                    k = next((i for i, (x, y) in enumerate(zip(cpp[f], py[f])) if x != y), min(len(cpp[f]), len(py[f])))
                    raise Violation("different-bytes: %s differs between C++ (%d bytes) and Python (%d bytes) from byte %d on" % (f, len(cpp[f]), len(py[f]), k))
                if complete and len(sc["order"]) == len(vals):
                    raise Violation("different-files: %s is written only by %s" % (f, "C++" if f in cpp else "Python"))
            if f not in whole:
                raise Violation("different-files: unexpected file %s" % f)
        if py != whole and len(sc["order"]) == len(vals):
            raise Violation("wrong-bytes: the Python archive is not the expected one")
        if py == whole:
            self.read_py(schema, arch, os.path.join(root, "p", "a"), exp, "the Python builder")
            # C++ reads what Python wrote
            c2 = [c.replace("@", root) for c in ["S 0 fo @/p/a", "o 1 %s %d 0" % (sc["schema"], sc["ai"]), "d 1", "ds 1"]]
            resp2, st2, _ = self.driver().run(c2)
            if st2:
                raise Violation(crash_text(st2, resp2, c2, self.driver().stderr()))
            from .diskmodel import cpp_expect, Disk
            from .cppread import compare
            from .cppdrv import parse_dump
            ans = [x.split(" ", 1)[1] for x in resp2]
            if ans[1] != "open":
                raise Violation("unreadable: the C++ reader answers %s for the archive written by the Python builder" % ans[1][:100])
            compare(schema, arch, cpp_expect(schema, arch, Disk(whole)), parse_dump(ans[2]), False, [], "C++ reading the archive of the Python builder: ")

    def judge(self, sc, root, cmds, resp, st, out):
        self.py_ops, self.py_kinds = 0, {}
        r = super().judge(sc, root, cmds, resp, st, out)
        for k, v in self.py_kinds.items():
            r.stats["faults"] = dict(r.stats["faults"], **{"python_" + k: v})
        r.stats["ops"] = r.stats.get("ops", 0) + self.py_ops
        r.nontrivial = bool(r.stats["faults"])
        if not r.violation:
            import hashlib
            sig = " ".join(" ".join(c.split(" ")[:2]) for c in sc["cmds"]) + str(sc["order"])
            r.key = sc["schema"] + hashlib.sha256(sig.encode()).hexdigest()[:16] + ",".join(sorted(r.stats["faults"])) if r.nontrivial else "trivial"
        return r
