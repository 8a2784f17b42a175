"""P27 and P28: threads over one Rust storage, builder or archive, under the thread simulator (cpp/thread_rt.c)."""
from multiprocessing import Pool
import random

from . import common, cppdrv, pylib, rustdrv
from .rustcheck import RustMixin, RustModel, _render
from .rustread import with_sentinels
from .threads import P07, P08

ASSUME = ("memory accesses are sequentially consistent; weaker orders show as data races, which are reported for every access not ordered by locks or atomics",
          "code of the precompiled Rust standard library runs without being interrupted between its system calls; what is generic or inlined is instrumented with the crate")
STUB = ("thread scheduler: threads are real but run one at a time, as a seeded scheduler decides at every instrumented memory access, atomic, futex wait and file operation",
        "futex waits, thread creation and joining (simulated)", "heap (nothing is reused, so that stale accesses show) and addresses of mappings (never reused)",
        "kernel file system calls below the scratch directory (interposed; real tmpfs behind them)", "the `diff` crate (text of one error message), which is not available offline")
REAL = ("flatdata-rs: builders, archives, ExternalVector, MultiVector, views, FileResourceStorage, MemoryResourceStorage, TarArchiveResourceStorage (current tree, instrumented, with overflow checks and debug assertions)",
        "flatdata-generator: Rust code of every schema used, generated from the current tree", "Rust std (its locks included), memmap2, tar")


class RustThreads(RustMixin):
    real, stub = REAL, STUB
    assumptions = ASSUME
    wide = False
    nrandom = {"quick": 4, "thorough": 12}

    def prepare(self):
        self.sids = self.schema_ids()
        with Pool(common.NCPU) as p:
            p.map(_render, self.sids)
        self.exe = self.exe_stats = rustdrv.build(self.sids, threads=True)
        self.schemas = {cppdrv.sid_name(s): pylib.schema_by_id(s) for s in self.sids}
        self.names = list(self.schemas)
        self.drv = {}


def printing(rng, sc, n):
    """somebody prints the storage at any time"""
    par = list(sc["par"])
    for _ in range(n):
        k = rng.choice([t for t, _ in par]) if par else 0
        par.insert(rng.randrange(len(par) + 1), [k, "dg 0"])
    return dict(sc, par=par)


class P27(RustThreads, P07):
    prop = "P27"
    rule = ("one run = one archive (seeded schema and values) whose resources are written by 2 to 5 threads with the real Rust library - set, streamed vectors and multivectors, sub-archives, on file or in-memory "
            "storage, with interrupted and short writes - under one seeded schedule; the reference model judges every answer, the reopened archive and every file as if the threads had run one after "
            "the other; a vector clock detector reports races, and threads that wait for each other are reported; every run counts as non-trivial")

    def tasks(self, rng, schema, arch, vals, b, ids, pre):
        return P07.tasks(self, rng, schema, arch, vals, b, ids, pre, memory_vectors=False)

    def workload7(self, rng, seed):
        sc = P07.workload7(self, rng, seed)
        return printing(rng, sc, rng.choice([0, 0, 1, 2]))


class P28(RustThreads, P08):
    prop = "P28"
    with_stats = False
    model = RustModel
    rule = ("one run = 2 to 5 threads that open and read one stored archive (seeded schema and values) with the real Rust library over one shared directory, TAR or in-memory storage, over storages of "
            "their own, or through one shared archive object, under one seeded schedule; the reference model judges every value read; a vector clock detector reports races, and threads that wait for "
            "each other are reported; every run counts as non-trivial")

    def vals(self, sc):
        schema = self.schemas[sc["schema"]]
        return with_sentinels(schema, schema.archives[sc["ai"]], P08.vals(self, sc))

    def make_model(self, sc, root):
        return P08.make_model(self, sc, root)

    def workload8(self, rng, seed):
        sc = P08.workload8(self, rng, seed)
        sc["stats"] = False
        if sc.get("sub"):
            sc["pre"] = [c.replace(" " + sc["sub"], "") if c.startswith("S 0") else c for c in sc["pre"]]
            sc["par"] = [[k, c[:-len(sc["sub"]) - 1] if c.startswith("S ") and c.endswith(" " + sc["sub"]) else c] for k, c in sc["par"]]
            sc["sub"] = ""
        return printing(rng, sc, rng.choice([0, 0, 1, 2]))
