"""ctypes access to the preloaded I/O simulator (shim/simio.c)."""
import ctypes

OPEN_R, OPEN_W, READ, WRITE, SEEK, CLOSE, STAT, MKDIR, MMAP, UNLINK, RENAME, OPENDIR, TRUNC, SYNC = (
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192)
KLASS = {"open": OPEN_R, "create": OPEN_W, "read": READ, "write": WRITE, "seek": SEEK, "close": CLOSE,
         "stat": STAT, "mkdir": MKDIR, "mmap": MMAP, "unlink": UNLINK, "rename": RENAME, "opendir": OPENDIR,
         "truncate": TRUNC, "fsync": SYNC}
A_ERRNO, A_SHORT, A_CRASH, A_TORN = 1, 2, 3, 4
KINDS = {1: "errno", 2: "short_write", 3: "crash", 4: "torn_write_error", 16: "disk_full", 20: "interrupted_call"}

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_begin.argtypes = [ctypes.c_char_p]
        _lib.sim_rule.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_long, ctypes.c_int,
                                  ctypes.c_long, ctypes.c_int, ctypes.c_long]
        _lib.sim_capacity.argtypes = [ctypes.c_long]
        _lib.sim_ops.restype = ctypes.c_long
        _lib.sim_mutations.restype = ctypes.c_long
        _lib.sim_log.restype = ctypes.c_char_p
        _lib.sim_kind.restype = ctypes.c_long
        _lib.sim_sched_begin.argtypes = [ctypes.c_int, ctypes.c_uint64, ctypes.c_int, ctypes.c_void_p, ctypes.c_long]
        _lib.sim_sched_end.restype = ctypes.c_long
        _lib.sim_sched_trace.restype = ctypes.POINTER(ctypes.c_int)
    return _lib


def begin(prefix, rules=(), cap=-1):
    l = lib()
    l.sim_begin(prefix.encode())
    add_rules(rules, cap)


def add_rules(rules, cap=-1):
    l = lib()
    for index, klass, sub, skip, action, arg, err, count in rules:
        l.sim_rule(index, klass, (sub or "").encode(), skip, action, arg, err, count)
    if cap >= 0:
        l.sim_capacity(cap)


def end():
    lib().sim_end()


def log():
    """list of (index, proc, op, path, arg, result, note)"""
    out = []
    for line in lib().sim_log().decode("utf8", "replace").splitlines():
        t = line.split(" ", 6)
        note = t[6][1:] if len(t) > 6 else ""
        # paths of the workloads contain no blanks
        out.append((int(t[0]), int(t[1]), t[2], t[3], int(t[4]), int(t[5]), note))
    return out


def kinds():
    l = lib()
    return {name: l.sim_kind(k) for k, name in KINDS.items() if l.sim_kind(k)}
