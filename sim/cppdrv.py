"""Building and talking to the C++ driver (cpp/driver_main.cpp) over the real C++ library."""
import hashlib
import os
import signal
import subprocess
import zlib
from concurrent.futures import ThreadPoolExecutor

from . import common, cppglue, pylib

CPP = os.path.join(common.VERIF, "cpp")


def lib_hash():
    return common.tree_hash(os.path.join(common.REPO, "flatdata-cpp", "src"),
                            os.path.join(common.REPO, "flatdata-cpp", "include"), CPP, os.path.join(common.VERIF, "shim"))


def sid_name(sid):
    return sid if isinstance(sid, str) else "_".join(str(int(x)) if not isinstance(x, str) else x for x in sid)


# compiled for the thread simulator: instrumented, with our own runtime instead of the sanitizer's
THREADS = ["-fsanitize=thread", "-DSIM_THREADS"]


def build_threads(sids, stats=False):
    rt = (os.path.join(CPP, "thread_rt.c"), "thread_rt", ["-O2", "-g1", "-w", "-fno-builtin"], "gcc")
    return build(sids, cxx="clang++", flags=THREADS + (["-DDEBUG_DATA_ACCESS_STATISTICS"] if stats else []), extra_sources=[rt], tag="thr-")


ASAN = ["-fsanitize=address", "-D_GLIBCXX_ASSERTIONS"]


def build(sids, cxx="g++", flags=(), main="driver_main.cpp", extra_sources=(), opt="-O1", tag="", shim=True, link=()):
    """compile one driver binary for several schemas; objects are cached by content"""
    flags = ["-std=c++17", opt, "-g1", "-w", "-I", CPP, "-I", os.path.join(common.REPO, "flatdata-cpp", "include"),
             "-I", common.BUILD] + list(flags)
    lh = lib_hash()
    fk = " ".join([cxx] + [f for f in flags])
    os.makedirs(common.BUILD, exist_ok=True)
    units = []      # (object, command)

    def unit(src, key, fl=flags, cc=cxx):
        obj = os.path.join(common.BUILD, "o-%s.o" % hashlib.sha256((lh + fk + key + cc + " ".join(fl)).encode()).hexdigest()[:24])
        units.append((obj, [cc] + fl + ["-c", src, "-o"]))

    for sid in sids:
        schema = pylib.schema_by_id(sid)
        code = pylib.rendered(schema, "cpp")
        name = sid_name(sid)
        hk = hashlib.sha256(code.encode()).hexdigest()[:20]
        hdr = os.path.join(common.BUILD, "gen-%s.hpp" % hk)
        if not os.path.exists(hdr):
            tmp = "%s.%d" % (hdr, os.getpid())
            with open(tmp, "w") as f:
                f.write(code)
            os.replace(tmp, hdr)
        g = cppglue.glue(schema, name, os.path.basename(hdr))
        gk = hashlib.sha256(g.encode()).hexdigest()[:20]
        gp = os.path.join(common.BUILD, "glue-%s.cpp" % gk)
        if not os.path.exists(gp):
            tmp = "%s.%d" % (gp, os.getpid())
            with open(tmp, "w") as f:
                f.write(g)
            os.replace(tmp, gp)
        unit(gp, gk + hk)
    unit(os.path.join(CPP, main), main)
    srcdir = os.path.join(common.REPO, "flatdata-cpp", "src")
    for f in sorted(os.listdir(srcdir)):
        if f.endswith(".cpp"):
            unit(os.path.join(srcdir, f), "lib/" + f)
    for e in extra_sources:
        unit(*e)
    if shim:
        unit(os.path.join(common.VERIF, "shim", "simio.c"), "shim", ["-O2", "-g1", "-w"], "gcc")
    exe = os.path.join(common.BUILD, "drv-%s%s" % (tag, hashlib.sha256(" ".join(u[0] for u in units).encode()).hexdigest()[:20]))
    if os.path.exists(exe):
        return exe

    def comp(u):
        obj, cmd = u
        if os.path.exists(obj):
            return
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        common.run_cmd(cmd + [tmp])
        os.replace(tmp, obj)
    # the biggest units first
    with ThreadPoolExecutor(common.NCPU) as ex:
        list(ex.map(comp, units))
    tmp = "%s.%d.tmp" % (exe, os.getpid())
    lf = [f for f in flags if f.startswith("-fsanitize") and f != "-fsanitize=thread"]
    common.run_cmd([cxx, "-rdynamic"] + lf + [u[0] for u in units] + ["-o", tmp, "-lboost_filesystem", "-lboost_system", "-ldl", "-lpthread"] + list(link))
    os.replace(tmp, exe)
    return exe


class DriverDied(Exception):
    pass


class Driver:
    def __init__(self, exe, timeout=60, args=()):
        self.exe, self.timeout, self.args = exe, timeout, list(args)
        self.p = None

    def start(self):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                                            "abort_on_error=0:handle_segv=1:symbolize=0:print_summary=1")
        env.pop("LD_PRELOAD", None)
        self.err = open(os.path.join(common.scratch(), "stderr.%d" % os.getpid()), "w+b")
        self.p = subprocess.Popen([self.exe, str(self.timeout)] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=env)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()
            self.p = None

    def run(self, cmds):
        """-> (responses, status, stderr).  status 0 = the scenario ran to its end"""
        if self.p is None:
            self.start()
        self.err.seek(0)
        self.err.truncate()
        self.p.stdin.write(("RUN %d\n" % len(cmds) + "\n".join(cmds) + "\n").encode())
        self.p.stdin.flush()
        out = []
        while True:
            line = self.p.stdout.readline()
            if not line:
                raise RuntimeError("driver died: " + self.stderr())
            line = line.decode("latin1").rstrip("\n")
            if line.startswith("END "):
                st = int(line[4:])
                break
            out.append(line)
        done = "@done" in out[-1:]
        resp = [x for x in out if x not in ("@destroy", "@done")]
        return resp, (st if st or not done else 0), out

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode("latin1", "replace")


def crash_text(st, resp, cmds, err):
    where = cmds[len(resp)] if len(resp) < len(cmds) else "(destruction)"
    if st == 1000 + signal.SIGALRM:
        return "hang: no progress in command %s" % where[:120]
    kind = "signal %d" % (st - 1000) if st >= 1000 else ("memory error" if st == 77 else "exit %d" % st)
    summ = [l for l in err.splitlines() if "SUMMARY" in l or "ERROR: Addr" in l or "Assertion" in l or "terminate" in l or "what()" in l]
    return "crash: %s in command %s %s" % (kind, where[:120], " / ".join(summ)[:400])


# ---------------------------------------------------------------- values for the driver and expected dumps
def u64(x):
    return x & 0xFFFFFFFFFFFFFFFF


def row_text(row):
    return ",".join(str(u64(x)) for x in row)


def value_text(r, v):
    """value of a set command"""
    if r.kind == "instance":
        return row_text(v)
    if r.kind == "vector":
        return ";".join(row_text(x) for x in v) if v else "-"
    if r.kind == "raw_data":
        return "x" + v.hex()
    raise ValueError(r.kind)


def _le(vals):
    return b"".join(u64(x).to_bytes(8, "little") for x in vals)


def view_rows(s, rows):
    """rows as a reader sees them: range fields show the pair (own value, next value) and the last element is the sentinel"""
    if not s.has_range:
        return [list(r) for r in rows]
    out = []
    for a, b in zip(rows, rows[1:]):
        o = []
        for f, x, y in zip(s.fields, a, b):
            o.append(x)
            if f.range:
                o += [x, y]
        out.append(o)
    return out


def dump_text(schema, r, v):
    if r.kind == "instance":
        return "inst " + row_text(v)
    if r.kind == "raw_data":
        return "raw %d %d" % (len(v), zlib.crc32(v))
    if r.kind == "vector":
        vr = view_rows(schema.struct(r.types[0]), v)
        t = "vec %d %d" % (len(vr), zlib.crc32(b"".join(_le(x) for x in vr)))
        if len(vr) <= 3:
            t += "".join(" " + row_text(x) for x in vr)
        return t
    c = 0
    for b in v:
        body = b"".join(_le([ti]) + _le(row) for ti, row in b)
        c = zlib.crc32(_le([len(b), zlib.crc32(body)]), c)
    return "mv %d %d" % (len(v), c)


def part_text(schema, r, v, stride, at):
    """what a dump of the elements i with i % stride == at shows"""
    if r.kind == "instance":
        return "skipped" if at else "inst " + row_text(v)
    if r.kind == "raw_data":
        return "raw %d %d" % (len(v), zlib.crc32(v[at::stride]))
    if r.kind == "vector":
        vr = view_rows(schema.struct(r.types[0]), v)
        return "vec %d %d" % (len(vr), zlib.crc32(b"".join(_le(x) for x in vr[at::stride])))
    return "mv %d " % len(v) + dump_text(schema, r, v[at::stride]).split(" ")[2]


def part_dump(schema, arch, vals, stride, at, path=""):
    """{path: text} of such a dump of an archive"""
    out = {}
    for r in arch.resources:
        if r.name not in vals:
            out[path + r.name] = "absent"
        elif r.kind == "archive":
            out.update(part_dump(schema, schema.archive(r.types[0]), vals[r.name], stride, at, path + r.name + "/"))
        else:
            out[path + r.name] = part_text(schema, r, vals[r.name], stride, at)
    return out


def parse_dump(line):
    """{path: text} and {archive path: "open"|"closed"}"""
    res, arch = {}, {}
    for part in line.split("|"):
        if not part:
            continue
        p, t = part.split(" ", 1)
        if t in ("open", "closed"):
            arch[p] = t
        else:
            res[p] = t
    return res, arch
