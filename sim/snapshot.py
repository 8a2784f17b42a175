"""P16: an open archive does not change, whatever happens to its files."""
import gc
import io
import os
import random
import shutil
import tarfile

from . import common, cppcheck as cc, diskmodel as dm, pylib, simlib
from .common import Result, Violation
from .cppcheck import CppCheck, parse_log, values_for
from .cppdrv import crash_text, parse_dump
from .cppread import compare
from .py_read import PERRS, content, first_difference, py_expect
from .py_write import EACCES, EIO, EMFILE
from .simlib import A_ERRNO, KLASS

ALL = sum(KLASS.values())
MUTATING = ("create", "write", "mkdir", "unlink", "rename", "truncate", "fsync")


def plain_tar(path, files, dirs):
    with tarfile.open(path, "w", format=tarfile.GNU_FORMAT) as t:
        for d in sorted(dirs):
            i = tarfile.TarInfo(d)
            i.type = tarfile.DIRTYPE
            t.addfile(i)
        for n, b in files.items():
            i = tarfile.TarInfo(n)
            i.size = len(b)
            t.addfile(i, io.BytesIO(b))


class P16(CppCheck):
    prop = "P16"
    level = "exploration"
    preload = True
    reducible = ("cmds",)
    rule = ("one run = an archive stored in a directory or a TAR file, opened by the real C++ or Python reader; then a seeded interleaving of reads with deletions, renames and atomic replacements of its "
            "files and directories, other archives being opened and closed, and I/O errors on every later operation; every read of the open archive must show the values it had when it was opened; "
            "non-trivial = at least one file changed while the archive was open")
    measure = "distinct (language, kind of storage, schema, sequence of changes and reads)"
    real = CppCheck.real + ("flatdata-py: Archive, resources, FileResourceStorage, TarArchiveResourceStorage (current tree)",)
    nrandom = {"quick": 5, "thorough": 20}

    def prepare(self):
        super().prepare()
        import flatdata.lib  # noqa
        import flatdata.lib.file_resource_storage  # noqa
        import flatdata.lib.tar_archive_resource_storage  # noqa

    # scenario: cmds = list of [op, args...]; op: read, readone, del, ren, rep, repdir, wipe, open, close, faults, heal, dropstorage
    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p16/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = self.names[0] if rng.random() < 0.4 else rng.choice(self.names)
            schema = self.schemas[name]
            ai = len(schema.archives) - 1
            arch = schema.archives[ai]
            base = dict(schema=name, ai=ai, values=seed, scale=rng.choice([None, None, 1, 60]))
            files = dm.archive_files(schema, arch, self.vals(base, 0))
            other = dm.archive_files(schema, arch, self.vals(base, 1))
            for k in range(10):
                tar = rng.random() < 0.3
                cmds = []
                p = rng.choice([0.3, 0.6])
                for _ in range(rng.choice([3, 8, 20])):
                    x = rng.random()
                    if x < p:
                        cmds.append(["read"])
                        continue
                    x = rng.random()
                    f = rng.choice(sorted(files))
                    if x < 0.2:
                        cmds.append(["del", f])
                    elif x < 0.35:
                        cmds.append(["ren", f, f + ".old"])
                    elif x < 0.6:
                        cmds.append(["rep", f, rng.choice(["other", "empty", "zero", "long"])])
                    elif x < 0.7:
                        cmds.append(["all", rng.choice(["del", "other", "move", "move_other"])])
                    elif x < 0.8:
                        cmds.append(["open", rng.choice(["same", "fresh"])])
                    elif x < 0.85:
                        cmds.append(["close"])
                    elif x < 0.95:
                        cmds.append(["faults", rng.choice([EIO, EACCES, EMFILE])])
                    elif x < 0.97:
                        cmds.append(["heal"])
                    else:
                        cmds.append(["dropstorage"])
                cmds.append(["read"])
                if rng.random() < 0.5:
                    cmds.insert(0, ["read"])
                yield dict(base, lang=rng.choice(["cpp", "py", "py"]), tar=tar, cmds=cmds)
                if stop():
                    return

    def shrinks(self, sc):
        return ()

    def vals(self, sc, k):
        schema = self.schemas[sc["schema"]]
        return values_for(schema, schema.archives[sc["ai"]], sc["values"] + "/%d" % k, random.Random(sc["values"] + "/opt%d" % k), scale=sc["scale"])

    # ------------------------------------------------------------ what a change does: list of raw file operations
    def raw_ops(self, sc, c, files, other):
        """(operation, path[, path or bytes])"""
        a = "@/d/a"
        if sc["tar"]:
            t = "@/d/a.tar"
            if c[0] == "del" or c == ["all", "del"]:
                return [("ul", t)]
            if c[0] == "ren" or c == ["all", "move"]:
                return [("rn", t, t + ".old")]
            if c[0] == "rep" and c[2] in ("empty", "zero"):
                return [("wf", t + ".new", b"" if c[2] == "empty" else b"\0" * 20480), ("rn", t + ".new", t)]
            return [("cp", "@/other.tar", t + ".new"), ("rn", t + ".new", t)]
        if c[0] == "del":
            return [("ul", a + "/" + c[1])]
        if c[0] == "ren":
            return [("rn", a + "/" + c[1], a + "/" + c[2])]
        if c[0] == "rep":
            new = {"other": other.get(c[1], b"x"), "empty": b"", "zero": b"\0" * len(files[c[1]]), "long": files[c[1]] + b"\1" * 5000}[c[2]]
            return [("wf", a + "/tmp.new", new), ("rn", a + "/tmp.new", a + "/" + c[1])]
        how = c[1]
        o = []
        if how == "move" or how == "move_other":
            o.append(("rn", a, a + ".old"))
        if how == "del":
            return [("ul", a + "/" + f) for f in sorted(files)]
        if how == "other":
            for f in sorted(other):
                if f in files or "/" not in f:
                    o += [("wf", a + "/tmp.new", other[f]), ("rn", a + "/tmp.new", a + "/" + f)]
            return o
        if how == "move_other":
            o.append(("mkd", a))
            for d in sorted(dm.dirs_of(other)):
                o.append(("mkd", a + "/" + d))
            for f in sorted(other):
                o.append(("wf", a + "/" + f, other[f]))
        return o

    def execute(self, sc):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        root = self.fresh_root()
        files = dm.archive_files(schema, arch, self.vals(sc, 0))
        other = dm.archive_files(schema, arch, self.vals(sc, 1))
        if sc["tar"]:
            plain_tar(os.path.join(root, "d", "a.tar"), files, dm.dirs_of(files))
            plain_tar(os.path.join(root, "other.tar"), other, dm.dirs_of(other))
        else:
            dm.write_tree(os.path.join(root, "d", "a"), files, dm.dirs_of(files))
        try:
            return (self.run_cpp if sc["lang"] == "cpp" else self.run_py)(sc, schema, arch, root, files, other)
        finally:
            gc.collect()
            shutil.rmtree(root, ignore_errors=True)

    def result(self, sc, v, trace, stats):
        n = sum(1 for c in sc["cmds"] if c[0] in ("del", "ren", "rep", "all"))
        stats["changes"] = n
        for c in sc["cmds"]:
            if c[0] in ("del", "ren", "rep", "all"):
                k = "files_" + {"del": "deleted", "ren": "renamed", "rep": "replaced", "all": "all_changed"}[c[0]]
                stats["faults"] = dict(stats["faults"], **{k: stats["faults"].get(k, 0) + 1})
        if v:
            return Result(violation=v, key="violation", nontrivial=n > 0, trace=trace, stats=stats)
        key = "|".join([sc["lang"], "tar" if sc["tar"] else "dir", sc["schema"], ",".join(".".join(str(x) for x in c) for c in sc["cmds"])])[:700]
        return Result(key=key if n else "trivial", nontrivial=n > 0, trace=trace, stats=stats)

    # ------------------------------------------------------------ C++
    def run_cpp(self, sc, schema, arch, root, files, other):
        s, ai = sc["schema"], sc["ai"]
        store = "tar @/d/a.tar" if sc["tar"] else "fo @/d/a"
        cmds, exp = ["B @/d", "S 9 " + store, "o 9 %s %d 9" % (s, ai), "d 9", "ds 9", "ax 9", "SX 9",
                      "S 0 " + store, "o 1 %s %d 0" % (s, ai)], []
        n, opened = 10, []
        for k, c in enumerate(sc["cmds"]):
            if c[0] == "read":
                cmds += ["d 1", "ds 1"]
            elif c[0] == "open":
                n += 1
                if c[1] == "same":
                    if ["dropstorage"] in sc["cmds"][:k]:
                        continue
                    cmds += ["o %d %s %d 0" % (n, s, ai), "d %d" % n]
                else:
                    cmds += ["S %d %s" % (n, store), "o %d %s %d %d" % (n, s, ai, n), "d %d" % n]
                opened.append(n)
            elif c[0] == "close":
                if opened:
                    o = opened.pop()
                    cmds += ["ax %d" % o, "SX %d" % o]
            elif c[0] == "faults":
                cmds.append("R -1 %d - 0 %d 0 %d 0" % (ALL, A_ERRNO, c[1]))
            elif c[0] == "heal":
                cmds.append("E")
            elif c[0] == "dropstorage":
                cmds.append("SX 0")
            else:
                for o in self.raw_ops(sc, c, files, other):
                    if o[0] == "wf":
                        src = os.path.join(root, "w%d" % len(cmds))
                        with open(src, "wb") as f:
                            f.write(o[2])
                        cmds.append("rn %s %s" % (src, o[1]))
                    elif o[0] == "cp":
                        src = os.path.join(root, "w%d" % len(cmds))
                        shutil.copyfile(o[1].replace("@", root), src)
                        cmds.append("rn %s %s" % (src, o[2]))
                    else:
                        cmds.append(" ".join(o))
        cmds += ["L", "X", "d 1"]
        cmds = [c.replace("@", root) for c in cmds]
        resp, st, out = self.driver().run(cmds)
        trace = ["%s => %s" % (c[:150], r[:200]) for c, r in zip(cmds, resp) if not c.startswith("L")]
        stats = {"ops": 0, "faults": {}, "seeds": 1}
        if st:
            return self.result(sc, crash_text(st, resp, cmds, self.driver().stderr()), trace, stats)
        ans = [r.split(" ", 1)[1] for r in resp]
        k = next(i for i, c in enumerate(cmds) if c == "L")
        ops, kinds, entries = parse_log(ans[k])
        stats["ops"], stats["faults"] = ops, dict(kinds)
        try:
            if ans[2] != "open":
                raise Violation("spurious-failure: the archive does not open")
            compare(schema, arch, dm.cpp_expect(schema, arch, dm.Disk(files)), parse_dump(ans[3]), False, [], "before any change, ")
            ds = ans[4]
            for c, a in zip(cmds[5:], ans[5:]):
                if c == "d 1" and a != ans[3]:
                    R, A = parse_dump(a)
                    R0, A0 = parse_dump(ans[3])
                    p = next((p for p in sorted(R0) if R.get(p) != R0[p]), "")
                    raise Violation("changed-content: %s shows %s, it showed %s before its files changed" % (p, str(R.get(p))[:100], str(R0.get(p))[:100]))
                if c == "ds 1" and a != ds:
                    raise Violation("changed-content: the open archive is described differently after its files changed")
            for e in entries:
                if e[2] in MUTATING:
                    raise Violation("modified: reading performed %s on %s" % (e[2], e[3]))
        except Violation as v:
            return self.result(sc, str(v), trace, stats)
        return self.result(sc, None, trace, stats)

    # ------------------------------------------------------------ Python
    def run_py(self, sc, schema, arch, root, files, other):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
        cls = pylib.cls(schema, arch.name)

        def storage():
            if sc["tar"]:
                return TarArchiveResourceStorage.create(os.path.join(root, "d", "a.tar"))
            return FileResourceStorage(os.path.join(root, "d", "a"))
        vals, kinds, certain = py_expect(schema, arch, dm.Disk(files))
        lib = simlib.lib()
        trace, stats = [], {"ops": 0, "faults": {}, "seeds": 1}
        simlib.begin(os.path.join(root, "d"))
        verdict = None
        opened = []
        rng = random.Random(sc["values"] + "reads")
        try:
            st = storage()
            a = cls(st)
            its = None
            for c in sc["cmds"]:
                trace.append(" ".join(str(x) for x in c))
                if c[0] == "read":
                    got = content(schema, arch, a, vals)
                    d = first_difference(vals, got)
                    if d:
                        raise Violation("changed-content: " + d)
                    size = a.size_in_bytes()
                    if its is None:
                        its = size
                    if size != its:
                        raise Violation("changed-content: size_in_bytes is %d, it was %d" % (size, its))
                elif c[0] == "open":
                    try:
                        opened.append(cls(st if c[1] == "same" and st is not None else storage()))
                    except Exception:
                        pass
                elif c[0] == "close":
                    if opened:
                        opened.pop()
                elif c[0] == "faults":
                    lib.sim_rule(-1, ALL & ~KLASS["close"], b"", 0, A_ERRNO, 0, c[1], 0)
                elif c[0] == "heal":
                    lib.sim_clear_rules()
                elif c[0] == "dropstorage":
                    st = None
                else:
                    lib.sim_pause(1)
                    for o in self.raw_ops(sc, c, files, other):
                        p = [x.replace("@", root) if isinstance(x, str) else x for x in o]
                        try:
                            if o[0] == "ul":
                                os.unlink(p[1])
                            elif o[0] == "rn":
                                os.rename(p[1], p[2])
                            elif o[0] == "mkd":
                                os.mkdir(p[1])
                            elif o[0] == "cp":
                                shutil.copyfile(p[1], p[2])
                            else:
                                with open(p[1], "wb") as f:
                                    f.write(p[2])
                        except OSError:
                            pass
                    lib.sim_pause(0)
        except Violation as v:
            verdict = str(v)
        except Exception as e:
            verdict = "unreadable: %s raised %s: %s" % (trace[-1] if trace else "opening", type(e).__name__, str(e)[:200])
        finally:
            lib.sim_clear_rules()
            simlib.end()
        stats["ops"], stats["faults"] = lib.sim_ops(), dict(simlib.kinds())
        if not verdict:
            for e in simlib.log():
                if e[2] in MUTATING:
                    verdict = "modified: reading performed %s on %s" % (e[2], e[3])
                    break
        a = st = opened = None
        return self.result(sc, verdict, trace, stats)
