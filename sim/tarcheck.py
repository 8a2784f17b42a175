"""P10: archives in TAR files."""
import gc
import hashlib
import os
import random
import shutil
import signal

from . import cppcheck as cc, diskmodel as dm, pylib, simlib
from .common import Result, Violation
from .cppcheck import CppCheck, parse_log, rule_cmds, values_for
from .cppdrv import crash_text, parse_dump
from .cppread import RERRS, compare
from .py_read import PERRS, content, first_difference, py_expect
from .simlib import A_ERRNO, KLASS


# ---------------------------------------------------------------- our own TAR writer
def chksum(h):
    s = sum(h[:148]) + 8 * 32 + sum(h[156:])
    return h[:148] + b"%06o\0 " % s + h[156:]


def num_field(v, n, base256):
    if base256:
        return bytes([0x80]) + v.to_bytes(n - 1, "big")
    return b"%0*o\0" % (n - 1, v)


def header(name, size, typeflag, magic, prefix=b"", base256=False, mode=0o644, mtime=0, chk7=False):
    h = name[:100].ljust(100, b"\0") + num_field(mode, 8, False) + num_field(0, 8, False) + num_field(1000, 8, False)
    h += num_field(size, 12, base256) + num_field(mtime, 12, False) + b" " * 8 + typeflag + b"\0" * 100
    h += {"gnu": b"ustar  \0", "posix": b"ustar\x0000", "v7": b"\0" * 8}[magic]
    if magic == "v7":
        h += b"\0" * 247
    else:
        h += b"user".ljust(32, b"\0") + b"group".ljust(32, b"\0") + num_field(0, 8, False) + num_field(0, 8, False)
        h += prefix.ljust(155, b"\0") + b"\0" * 12
    h = h[:512].ljust(512, b"\0")
    s = sum(h)
    return h[:148] + (b"%07o\0" % s if chk7 else b"%06o\0 " % s) + h[156:]


def pack(files, dirs, opt):
    """-> (bytes, [(name, kind, header offset, data offset, size)])"""
    rng = random.Random(opt["seed"])
    members = [(n, b) for n, b in files.items()]
    if opt["dirs"] != "none":
        for d in sorted(dirs):
            if opt["dirs"] == "all" or rng.random() < 0.5:
                members.append((d, None))
        if rng.random() < 0.5 and opt["dot"] == "all":
            members.append((".", None))
    if opt["order"] == "sorted":
        members.sort(key=lambda m: m[0])
    elif opt["order"] == "shuffled":
        rng.shuffle(members)
    elif opt["order"] == "reverse":
        members.sort(key=lambda m: m[0], reverse=True)
    if opt.get("dup"):
        # outdated versions of some members, as updating by appending (tar -r, tar -u) leaves them
        own = random.Random(str(opt["seed"]) + "/dup")
        for n, b in [m for m in members if m[1] is not None]:
            if own.random() < opt["dup"]:
                old = own.choice([b"", b[:-1], b + b"\0", bytes(x ^ 1 for x in b), b[:8] + bytes(reversed(b[8:])), own.randbytes(own.choice([1, 24, 600]))])
                k = next(j for j, m in enumerate(members) if m[0] == n and m[1] is b)
                members.insert(own.randint(0, k), (n, old))
    out, lay, off = [], [], 0

    def add(b):
        nonlocal off
        out.append(b)
        off += len(b)

    def padded(b):
        return b + b"\0" * (-len(b) % 512)
    for name, data in members:
        full = name
        if opt["dot"] == "all" or (opt["dot"] == "some" and rng.random() < 0.5):
            full = "./" + name if name != "." else "."
        if data is None:
            full += "/" if opt["slash"] else ""
        raw = full.encode()
        magic = opt["magic"] if opt["magic"] != "mixed" else rng.choice(["gnu", "posix"])
        prefix = b""
        short = raw
        base256 = opt["base256"] == "all" or (opt["base256"] == "some" and rng.random() < 0.4)
        if magic == "posix" and (len(raw) > 100 or rng.random() < opt["split"]) and data is not None:
            cuts = [i for i, ch in enumerate(raw) if ch == 47 and i <= 155 and 0 < len(raw) - i - 1 <= 100 and i > 0]
            if cuts:
                k = rng.choice(cuts)
                prefix, short = raw[:k], raw[k + 1:]
        kind = "dir" if data is None else "file"
        if not prefix and (len(raw) > 100 or rng.random() < opt["long"]):
            ln = raw + b"\0"
            lay.append((name, "long", off, off + 512, len(ln)))
            add(header(b"././@LongLink", len(ln), b"L", "gnu"))
            add(padded(ln))
            magic = "gnu"
            short = raw[:100] if rng.random() < 0.7 else b"x"
        flag = b"5" if data is None else (b"\0" if opt["areg"] and rng.random() < 0.5 else b"0")
        if flag == b"\0" and short.endswith(b"/"):
            flag = b"0"
        n = 0 if data is None else len(data)
        lay.append((name, kind, off, off + 512, n))
        add(header(short, n, flag, magic, prefix, base256 and data is not None, 0o755 if data is None else 0o644, rng.choice([0, 1700000000]), opt["chk7"]))
        if data is not None:
            add(padded(data))
    end = opt["end"]
    if end == "two":
        add(b"\0" * 1024)
    elif end == "one":
        add(b"\0" * 512)
    elif end == "record":
        add(b"\0" * 1024)
        add(b"\0" * (-off % 10240))
    elif end == "garbage":
        add(b"\0" * 1024)
        add(rng.randbytes(512 * rng.randint(1, 4)))
    return b"".join(out), lay


def rand_pack(rng, seed):
    return dict(seed=seed, order=rng.choice(["sorted", "shuffled", "shuffled", "reverse"]), dirs=rng.choice(["none", "all", "some"]), dot=rng.choice(["none", "all", "some"]),
                slash=rng.random() < 0.7, magic=rng.choice(["gnu", "gnu", "posix", "mixed", "v7"]), split=rng.choice([0, 0.3]), long=rng.choice([0, 0, 0.3, 1]),
                base256=rng.choice(["none", "some", "all"]), areg=rng.random() < 0.3, chk7=rng.random() < 0.2, end=rng.choice(["two", "one", "none", "record", "garbage"]), dup=rng.choice([0, 0, 0.2, 1]))


class Hang(Exception):
    pass


class P10(CppCheck):
    prop = "P10"
    level = "exploration"
    preload = True
    reducible = ("damage", "rules", "extra")
    rule = ("one run = one stored archive (seeded schema with sub-archives, values, absent optional resources) packed by our own TAR writer with seeded choices (member order, directory members, './', "
            "GNU long names, POSIX name prefixes, base-256 sizes, end blocks, unrelated members, outdated versions of members before the current ones, archive below a long path), opened by the real C++ and Python TAR storages and the Python inspector, with "
            "seeded damage (cut, flipped header or payload bits, wiped headers, consistent but wrong sizes, types and names) or I/O errors at chosen calls; non-trivial = every run (the packing is the disturbance)")
    measure = "distinct (schema, packing options, kinds of damage, faulted operations, outcome in C++, Python and inspector)"
    always_nontrivial = True
    real = CppCheck.real + ("TarReader, MemoryMappedTarFileStorage, TarArchiveResourceStorage", "flatdata-py: TarArchiveResourceStorage, Archive, inspector.open_archive; Python's tarfile")
    nrandom = {"quick": 6, "thorough": 20}

    def prepare(self):
        super().prepare()
        import flatdata.lib  # noqa
        import flatdata.lib.tar_archive_resource_storage  # noqa
        import flatdata.lib.inspector  # noqa
        pylib.memo_engine()

    def scenarios(self, worker, nworkers, stop):
        i = worker
        while True:
            seed = "%d/p10/%d" % (self.seed, i)
            i += nworkers
            rng = random.Random(seed)
            name = self.names[0] if rng.random() < 0.4 else rng.choice(self.names)
            subs = ["", "", "", "x", "deep/er", ".hidden/x", "..data", "d" * 60 + "/" + "e" * 70, "p/" + "q" * 130]
            base = dict(schema=name, ai=len(self.schemas[name].archives) - 1, values=seed, scale=rng.choice([None, None, 0, 1, 3]), damage=[], rules=[])
            for k in range(6):
                extra = []
                sub = rng.choice(subs)
                if k % 3 == 2:      # a member whose name just fits its field
                    files = dm.archive_files(self.schemas[name], self.schemas[name].archives[base["ai"]], self.vals(base))
                    n = rng.choice([99, 100, 100, 101, 98]) - 1 - len(rng.choice(sorted(files)))
                    if n > 0:
                        sub = "s" * n
                for _ in range(rng.choice([0, 0, 1, 3])):
                    extra.append([rng.choice(["README", "aa/zz", "zz/other.bin", "w" * 150, "v" * 90 + "/" + "u" * 90, "Arc", "archive"]), rng.choice([0, 1, 511, 512, 513, 2000])])
                b = dict(base, sub=sub, extra=extra, pack=rand_pack(rng, seed + "/%d" % k))
                yield b
                b = dict(b, pack=dict(b["pack"], dup=0))      # a damaged member would show its outdated version
                tar, lay, files = self.build(b)
                for _ in range(8):
                    yield dict(b, damage=self.damages(rng, tar, lay), py=rng.random() < 0.4)
                    if stop():
                        return
                if k < 3:
                    for lang in ("cpp", "py", "inspect"):
                        ops = self.profile10(b, lang)
                        errs = RERRS if lang == "cpp" else PERRS
                        plans = [[[e[0], KLASS[e[2]], "", 0, A_ERRNO, 0, er, c]] for e in ops for er in dict(errs, seek=[5]).get(e[2], []) for c in (1, 0)]
                        rng.shuffle(plans)
                        for rules in plans[:6]:
                            yield dict(b, rules=rules, lang=lang, pack=rand_pack(rng, seed + "/f%d" % rng.randrange(99)) if rng.random() < 0.3 else b["pack"])
                            if stop():
                                return

    def damages(self, rng, tar, lay):
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            m = rng.randrange(len(lay))
            x = rng.random()
            if x < 0.25:
                n = rng.randrange(len(tar) + 1)
                out.append(["cut", n - n % 512 if rng.random() < 0.7 else n])
            elif x < 0.4:
                out.append(["header", m, rng.choice([rng.randrange(512), rng.randrange(100), rng.randint(124, 156), 156]), 1 << rng.randrange(8)])
            elif x < 0.65:
                if lay[m][1] == "file" and lay[m][4]:
                    out.append(["payload", lay[m][0], rng.choice([rng.randrange(lay[m][4]), rng.randrange(min(8, lay[m][4]))]), 1 << rng.randrange(8)])
                elif lay[m][1] == "long":
                    out.append(["longname", m, rng.randrange(lay[m][4]), 1 << rng.randrange(7)])
            elif x < 0.75:
                out.append(["zero", m])
            elif x < 0.9:
                sz = lay[m][4]
                out.append(["size", m, rng.choice([0, 1, sz + 1, max(0, sz - 1), sz + 512, max(0, sz - 512), 1 << 33, (1 << 33) - 1, 1 << 62, (1 << 64) - 1, (1 << 64) - 512, (1 << 63) - 1, 1 << 80, len(tar)])])
            else:
                out.append(["type", m, rng.choice("01245LKSxgD7")])
        return out

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return values_for(schema, schema.archives[sc["ai"]], sc["values"], random.Random(sc["values"] + "/opt"), scale=sc["scale"])

    def build(self, sc):
        """-> tar bytes before header damage, layout, files of the archive (payload damage applied)"""
        schema = self.schemas[sc["schema"]]
        files = dm.archive_files(schema, schema.archives[sc["ai"]], self.vals(sc))
        for d in sc["damage"]:
            if d[0] == "payload":
                f = d[1][len(sc["sub"]) + 1:] if sc["sub"] else d[1]
                b = files.get(f)
                if b is not None and d[2] < len(b) and (not sc["sub"] or d[1].startswith(sc["sub"] + "/")):
                    files[f] = b[:d[2]] + bytes([b[d[2]] ^ d[3]]) + b[d[2] + 1:]
        pre = sc["sub"] + "/" if sc["sub"] else ""
        whole = {pre + f: b for f, b in files.items()}
        for n, size in sc["extra"]:
            if n not in dm.dirs_of(whole):
                whole[n] = b"\x11" * size
        tar, lay = pack(whole, dm.dirs_of(whole), sc["pack"])
        return tar, lay, files

    def make(self, sc):
        tar, lay, files = self.build(sc)
        weak = False
        names = {x[0] for x in lay}
        for d in sc["damage"]:
            if d[0] == "payload":
                continue
            weak = True
            if d[0] == "cut":
                tar = tar[:d[1]]
                continue
            if d[1] >= len(lay):
                continue
            _, kind, ho, do, size = lay[d[1]]
            if ho + 512 > len(tar):
                continue
            h = tar[ho:ho + 512]
            if d[0] == "header":
                h = h[:d[2]] + bytes([h[d[2]] ^ d[3]]) + h[d[2] + 1:]
            elif d[0] == "zero":
                h = b"\0" * 512
            elif d[0] == "size":
                v = d[2]
                if v < 1 << 33:
                    h = chksum(h[:124] + num_field(v, 12, False) + h[136:])
                else:
                    h = chksum(h[:124] + num_field(v, 12, True) + h[136:])
            elif d[0] == "type":
                h = chksum(h[:156] + d[2].encode() + h[157:])
            if d[0] == "longname":
                k = min(do + d[2], len(tar) - 1)
                new = (tar[do:k] + bytes([tar[k] ^ d[3]]) + tar[k + 1:do + size]).split(b"\0")[0].decode("latin-1")
                if (new[2:] if new.startswith("./") else new) in names:
                    continue        # then the file has two members of that name
                tar = tar[:k] + bytes([tar[k] ^ d[3]]) + tar[k + 1:]
                continue
            tar = tar[:ho] + h + tar[ho + 512:]
        return tar, files, weak

    # ------------------------------------------------------------ running
    def cpp_cmds(self, sc):
        s, ai = sc["schema"], sc["ai"]
        st = "tar @/d/a.tar" + (" " + sc["sub"] if sc["sub"] else "")
        rules = rule_cmds(sc["rules"]) if sc.get("lang") == "cpp" else []
        return ["B @/d"] + rules + ["S 0 " + st, "o 1 %s %d 0" % (s, ai), "d 1", "ds 1", "L", "X", "S 2 " + st, "o 2 %s %d 2" % (s, ai), "d 2", "ds 2", "S 3 fo @/dir", "o 3 %s %d 3" % (s, ai), "d 3", "ds 3", "L"]

    def py_open(self, sc, how, root):
        from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
        schema = self.schemas[sc["schema"]]
        path = os.path.join(root, "d", "a.tar")
        if how == "inspect":
            from flatdata.lib import inspector
            return inspector.open_archive(path)[0]
        arch = schema.archives[sc["ai"]]
        return pylib.cls(schema, arch.name)(TarArchiveResourceStorage.create(path, sc["sub"]))

    def setup(self, sc, root):
        tar, files, weak = self.make(sc)
        with open(os.path.join(root, "d", "a.tar"), "wb") as f:
            f.write(tar)
        dm.write_tree(os.path.join(root, "dir"), files, dm.dirs_of(files))
        return files, weak, tar

    def profile10(self, sc, lang):
        root = self.fresh_root()
        sc = dict(sc, rules=[], damage=[])
        try:
            self.setup(sc, root)
            if lang == "cpp":
                cmds = [c.replace("@", root) for c in self.cpp_cmds(sc)]
                resp, st, out = self.driver().run(cmds)
                k = cmds.index("L")
                return parse_log(resp[k].split(" ", 1)[1])[2] if len(resp) > k else []
            if lang == "inspect" and sc["sub"]:
                return []
            simlib.begin(os.path.join(root, "d"))
            try:
                self.py_open(sc, lang, root)
            except Exception:
                pass
            simlib.end()
            return simlib.log()
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def execute(self, sc):
        root = self.fresh_root()
        try:
            files, weak, tar = self.setup(sc, root)
            return self.run(sc, root, files, weak, tar)
        finally:
            gc.collect()
            shutil.rmtree(root, ignore_errors=True)

    def run(self, sc, root, files, weak, tar):
        schema = self.schemas[sc["schema"]]
        arch = schema.archives[sc["ai"]]
        stats = {"ops": 0, "faults": {}, "seeds": 1, "packed_bytes": len(tar)}
        for d in sc["damage"]:
            stats["faults"]["damage_" + d[0]] = stats["faults"].get("damage_" + d[0], 0) + 1
        trace, outcome = [], []
        only = sc.get("lang")
        try:
            disk = dm.Disk(files)
            if only in (None, "cpp"):
                self.run_cpp(sc, schema, arch, root, disk, weak, stats, trace, outcome)
            for how in ("py", "inspect"):
                if only in (None, how) and (how == "py" or not sc["sub"]) and (only or how == "py" or self.inspect(sc)):
                    self.run_py(sc, schema, arch, root, disk, weak, how, stats, trace, outcome)
        except dm.Undecodable:
            return Result(key="trivial-undecodable", nontrivial=False)
        except Violation as v:
            return Result(violation=str(v), key="violation", nontrivial=True, trace=trace, stats=stats)
        p = {k: v for k, v in sc["pack"].items() if k != "seed"}
        key = hashlib.sha256(repr((sc["schema"], sorted(p.items()), bool(sc["sub"]), sorted(d[0] for d in sc["damage"]), sorted(stats["faults"]), outcome)).encode()).hexdigest()[:16]
        return Result(key=key, nontrivial=True, trace=trace, stats=stats)

    def inspect(self, sc):
        return int(hashlib.sha256(sc["pack"]["seed"].encode()).hexdigest(), 16) % 4 == 0

    def run_cpp(self, sc, schema, arch, root, disk, weak, stats, trace, outcome):
        exp = dm.cpp_expect(schema, arch, disk)     # contents that nothing could decode are not read at all
        cmds = [c.replace("@", root) for c in self.cpp_cmds(sc)]
        resp, st, out = self.driver().run(cmds)
        trace += ["%s => %s" % (c[:200], r[:200]) for c, r in zip(cmds, resp) if not c.startswith("L")]
        if st:
            raise Violation(crash_text(st, resp, cmds, self.driver().stderr()))
        ans = [r.split(" ", 1)[1] for r in resp]
        ops, kinds, entries = parse_log(ans[cmds.index("L")])
        stats["ops"] += ops
        for k, v in kinds.items():
            stats["faults"][k] = stats["faults"].get(k, 0) + v
        hit = [e[3] for e in entries if e[6]]
        got = {}
        for c, a in zip(cmds, ans):
            t = c.split(" ")
            if t[0] == "S":
                got["S" + t[1]] = a
            elif t[0] in ("o", "d", "ds"):
                got[t[0] + t[1]] = a
        for k, what in (("2", ""), ("1", "with errors, ")):
            sk = "0" if k == "1" else "2"
            if got["S" + sk] != "ok":
                if not weak and not (hit and k == "1"):
                    raise Violation("spurious-failure: %sthe C++ storage does not open an intact TAR file" % what)
                outcome.append("cpp null")
                continue
            d = parse_dump(got["d" + k])
            compare(schema, arch, exp, d, weak or (bool(hit) and k == "1"), ["x"], what + "C++, TAR file: ")
            outcome.append("cpp " + got["o" + k] + str(sum(1 for x in d[0].values() if x in ("invalid", "absent"))))
        if not weak:
            if got["ds2"] != got["ds3"]:
                raise Violation("wrong-description: C++ describes the archive in the TAR file differently from the directory")
        if got["S2"] == "ok" and (got["o2"] == "open") == ("FATAL" in got["ds2"]):
            raise Violation("wrong-description: an archive that is %s is described as %s" % (got["o2"], "failed" if got["o2"] == "open" else "fine"))

    def run_py(self, sc, schema, arch, root, disk, weak, how, stats, trace, outcome):
        vals, kinds, certain = py_expect(schema, arch, disk)
        mine = sc.get("lang") == how

        def alarm(*a):
            raise Hang()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(30)
        simlib.begin(os.path.join(root, "d"), sc["rules"] if mine else [])
        try:
            for k in range(2 if mine else 1):
                err, a = None, None
                try:
                    a = self.py_open(sc, how, root)
                    got = content(schema, arch, a, vals)
                    if how == "py" and not weak and self.inspect(sc) and k == 0:
                        r1 = repr(a)
                        from flatdata.lib.file_resource_storage import FileResourceStorage
                        r2 = repr(pylib.cls(schema, arch.name)(FileResourceStorage(os.path.join(root, "dir"))))
                        if r1 != r2:
                            raise Violation("wrong-content: Python shows the archive in the TAR file differently from the directory")
                except Hang:
                    raise Violation("hang: opening the TAR file in Python (%s) does not end" % how)
                except Violation:
                    raise
                except Exception as e:
                    err = e
                if k == 0:
                    log = simlib.log()
                    simlib.lib().sim_clear_rules()
                hit = k == 0 and any(e[6] for e in log)
                what = "Python (%s)%s: " % (how, "" if k == 0 else " again")
                trace.append(what + ("opened" if err is None else "%s %s" % (type(err).__name__, str(err)[:100])))
                outcome.append(trace[-1].split(" ")[-1][:20] if err is None else type(err).__name__)
                if err is not None:
                    if not (weak or hit or kinds):
                        raise Violation("spurious-failure: %sthe archive in an intact TAR file raises %s: %s" % (what, type(err).__name__, str(err)[:200]))
                    continue
                if certain and not weak:
                    raise Violation("wrong-state: %san incomplete archive opens" % what)
                if weak:
                    d = weak_difference(schema, arch, vals, got)
                else:
                    d = first_difference(vals, got)
                if d:
                    raise Violation("wrong-content: " + what + d)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
            simlib.lib().sim_clear_rules()
            simlib.end()
            stats["ops"] += simlib.lib().sim_ops()
            if mine:
                for x, y in simlib.kinds().items():
                    stats["faults"][x] = stats["faults"].get(x, 0) + y

    def shrinks(self, sc):
        if sc["sub"]:
            yield dict(sc, sub="")
        p = sc["pack"]
        for k, v in (("order", "sorted"), ("dirs", "none"), ("dot", "none"), ("magic", "gnu"), ("long", 0), ("split", 0), ("base256", "none"), ("areg", False), ("chk7", False), ("end", "two"), ("dup", 0)):
            if p.get(k, v) != v:
                yield dict(sc, pack=dict(p, **{k: v}))


def weak_difference(schema, arch, exp, got, p=""):
    """members may have been lost: optional resources may be absent"""
    for r in arch.resources:
        e, g = exp.get(r.name), got.get(r.name)
        if e == g or e is Ellipsis or (g is None and r.optional):
            continue
        if isinstance(e, dict) and isinstance(g, dict):
            d = weak_difference(schema, schema.archive(r.types[0]), e, g, p + r.name + "/")
            if d:
                return d
            continue
        return "%s%s shows %s, stored is %s" % (p, r.name, "nothing" if g is None else str(g)[:100], "nothing" if e is None else str(e)[:100])
    return None
