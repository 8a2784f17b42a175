"""Running checks: build cache, worker pool, minimisation, replay files, evidence."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLATDATA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/venv/bin/python"
if REPO != "/repo":          # a scratch copy: its Python packages come before the installed ones
    _paths = [os.path.join(REPO, d) for d in ("flatdata-generator", "flatdata-py")]
    sys.path[:0] = _paths
    os.environ["PYTHONPATH"] = ":".join(_paths)
NCPU = min(8, os.cpu_count() or 1)

os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True


def seed_env():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def tier_env():
    return os.environ.get("VERIF_TIER", "quick")


def scratch_root():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    return base


_scratch = None


def scratch():
    """this process's scratch directory, removed on exit"""
    global _scratch
    if _scratch is None or not _scratch[1] == os.getpid():
        d = tempfile.mkdtemp(prefix="fdsim.", dir=scratch_root())
        _scratch = (d, os.getpid())
        import atexit
        atexit.register(lambda d=d, p=os.getpid(): os.getpid() == p and shutil.rmtree(d, ignore_errors=True))
    return _scratch[0]


def file_hash(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tree_hash(*dirs, exts=None, extra=""):
    paths = []
    for d in dirs:
        for root, dn, fn in os.walk(d):
            dn[:] = sorted(x for x in dn if x not in ("__pycache__", ".git"))
            for f in sorted(fn):
                if exts is None or f.endswith(exts):
                    paths.append(os.path.join(root, f))
    return file_hash(*paths, extra=extra)


def run_cmd(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build_once(target, cmd_of):
    """build target (atomically) unless it is there"""
    if os.path.exists(target):
        return target
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = "%s.%d.tmp" % (target, os.getpid())
    run_cmd(cmd_of(tmp))
    os.replace(tmp, target)
    return target


def shim():
    src = os.path.join(VERIF, "shim", "simio.c")
    out = os.path.join(BUILD, "simio-%s.so" % file_hash(src))
    return build_once(out, lambda t: ["gcc", "-O2", "-g", "-w", "-shared", "-fPIC", "-o", t, src, "-ldl", "-lpthread"])


def prune_build(keep_mb=600):
    """drop the oldest cached builds when the cache grows"""
    try:
        ents = [(e.stat().st_atime, e.stat().st_size, e.path) for e in os.scandir(BUILD) if e.is_file()]
    except OSError:
        return
    total = sum(e[1] for e in ents)
    for _, sz, p in sorted(ents):
        if total < keep_mb << 20:
            break
        os.unlink(p)
        total -= sz


# ---------------------------------------------------------------- violations
class Violation(Exception):
    """A property does not hold in this run."""


class Result:
    __slots__ = ("violation", "stats", "key", "trace", "nontrivial")

    def __init__(self, violation=None, key=None, nontrivial=False, trace=None, stats=None):
        self.violation, self.key, self.nontrivial, self.trace = violation, key, nontrivial, trace
        self.stats = stats or {}


def run_guarded(check, scenario):
    try:
        return check.execute(scenario)
    except Violation as v:
        return Result(violation=str(v), key="violation")


def run_isolated(check, scenario, timeout=60):
    """execute in a forked child; a crash or a hang of the child is a violation of its own kind"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            res = run_guarded(check, scenario)
            out = {"violation": res.violation, "key": res.key, "nontrivial": res.nontrivial, "trace": res.trace,
                   "stats": res.stats}
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + timeout
    import select
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return Result(violation="hang: no result within %d s" % timeout, key="hang")
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return Result(violation="crash: killed by signal %d" % os.WTERMSIG(st), key="crash")
    if os.WEXITSTATUS(st) == 99 or not data:
        raise RuntimeError("harness error in scenario %s" % json.dumps(scenario)[:2000])
    d = json.loads(data)
    return Result(d["violation"], d["key"], d["nontrivial"], d["trace"], d["stats"])


# ---------------------------------------------------------------- minimisation
def minimise(check, scenario, message, budget=40.0):
    """greedy reduction of the list-valued parts named by the check and of its shrink candidates"""
    t0 = time.time()
    kind = message.split(":", 1)[0]

    def fails(s):
        if time.time() - t0 > budget:
            return None
        try:
            r = run_isolated(check, s) if check.isolate else run_guarded(check, s)
        except RuntimeError:
            return None
        return r.violation if r.violation and r.violation.split(":", 1)[0] == kind else None

    best, msg = scenario, message
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for key in check.reducible:
            lst = best.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                i = 0
                while i < len(best[key]):
                    cand = dict(best)
                    cand[key] = best[key][:i] + best[key][i + size:]
                    m = fails(cand)
                    if m:
                        best, msg, changed = cand, m, True
                    else:
                        i += size
                    if time.time() - t0 > budget:
                        return best, msg
                size //= 2
        for cand in check.shrinks(best):
            m = fails(cand)
            if m:
                best, msg, changed = cand, m, True
                break
    return best, msg


# ---------------------------------------------------------------- known findings
def load_known(prop):
    """known findings recorded for a property: list of {"match": ..., "what": ...}"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == prop]


# ---------------------------------------------------------------- the check driver
class Check:
    """Base class.  A check turns seeds into scenarios (plain JSON) and executes scenarios."""
    prop = None
    level = "exploration"
    reducible = ()
    rule = ""
    preload = False        # run under the I/O shim
    isolate = True         # fork per scenario
    assumptions = ()
    real = ()
    stub = ()

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier

    def prepare(self):
        """build what is needed, in the orchestrator, before workers are forked"""

    def scenarios(self, worker, nworkers, stop):
        """yield scenarios for this worker, in a seeded order, until stop() is true"""
        raise NotImplementedError

    def execute(self, scenario):
        raise NotImplementedError

    def shrinks(self, scenario):
        return ()

    def budget(self):
        v = os.environ.get("VERIF_BUDGET")
        if v:
            return float(v)
        return 35.0 if self.tier == "quick" else 600.0


def _worker(check, idx, n, budget, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    t0 = time.time()
    found = []
    keys = {}
    stats = {}
    samples = []
    runs = 0
    nontriv = 0
    known = load_known(check.prop)
    try:
        stop = lambda: time.time() - t0 > budget or len(found) >= 1
        for sc in check.scenarios(idx, n, stop):
            r = run_isolated(check, sc) if check.isolate else run_guarded(check, sc)
            runs += 1
            k = r.key or ""
            if len(keys) < 300000:
                keys[k] = keys.get(k, 0) + 1
            if r.nontrivial:
                nontriv += 1
            for a, b in r.stats.items():
                if isinstance(b, dict):
                    d = stats.setdefault(a, {})
                    for x, y in b.items():
                        d[x] = d.get(x, 0) + y
                else:
                    stats[a] = stats.get(a, 0) + b
            if len(samples) < 2 and r.nontrivial and r.trace:
                samples.append({"scenario": sc, "trace": r.trace[:40]})
            if r.violation:
                kf = [k for k in known if k["match"] in r.violation]
                if kf:
                    d = stats.setdefault("known_findings_hit", {})
                    d[kf[0]["what"]] = d.get(kf[0]["what"], 0) + 1
                else:
                    found.append((sc, r.violation))
            if stop():
                break
        q.put((idx, runs, nontriv, keys, stats, samples, found, None))
    except BaseException:
        q.put((idx, runs, nontriv, keys, stats, samples, found, traceback.format_exc()))


def prepared(check):
    """prepare the check; what the code under test raises while schemas are parsed, code is generated, built and loaded for valid schemas is returned"""
    try:
        check.prepare()
    except (OSError, MemoryError):
        raise
    except Exception:
        return traceback.format_exc()
    return None


def unusable(check, text, wall):
    """nothing of a property holds for valid schemas whose code cannot be generated, built or used"""
    last = [x for x in text.strip().splitlines() if x.strip()]
    at = max(i for i, x in enumerate(last) if x.startswith("  File ")) if any(x.startswith("  File ") for x in last) else 0
    msg = "unusable: the code for a valid schema cannot be generated, built or loaded: " + " | ".join(x.strip() for x in last[at + 2:at + 8])[:600]
    ev = {"property": check.prop, "tier": check.tier, "seed": check.seed, "level": check.level, "assumptions": list(check.assumptions), "wall_s": round(wall, 1), "violations": 1,
          "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": check.rule, "samples": [], "explanation": "preparing the simulation failed in the code under test"}}
    with open(os.path.join(VERIF, "evidence", "%s.json" % check.prop), "w") as f:
        json.dump(ev, f, indent=1)
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-prepare.json" % check.prop)
    with open(path, "w") as f:
        json.dump({"property": check.prop, "seed": check.seed, "violation": msg, "scenario": None, "trace": text.splitlines()[-200:], "replay_cmd": "./check %s --replay <this file>" % check.prop}, f, indent=1)
    print("\n".join(text.splitlines()[-60:]))
    print("violation: " + msg)
    print("VIOLATION property=%s replay=%s" % (check.prop, path))
    return 1


def run_check(check):
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    broken = prepared(check)
    if broken:
        return unusable(check, broken, time.time() - t0)
    t_prep = time.time() - t0
    n = check.workers if hasattr(check, "workers") else NCPU
    budget = check.budget()
    q = mp.Queue()
    scratch()
    ps = []
    for i in range(n):
        p = mp.Process(target=_worker, args=(check, i, n, budget, q))
        p.start()
        ps.append(p)
    outs, errs = [], []
    limit = time.time() + budget + 240
    while len(outs) < n and time.time() < limit:
        try:
            outs.append(q.get(timeout=2))
        except Exception:
            for p in ps:
                if p.exitcode not in (None, 0) and not any(o[0] == ps.index(p) for o in outs):
                    errs.append("worker %d died with %s" % (ps.index(p), p.exitcode))
            if errs:
                break
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    if len(outs) < n and not errs:
        errs.append("workers did not finish")
    runs = sum(o[1] for o in outs)
    nontriv = sum(o[2] for o in outs)
    keys = {}
    stats = {}
    samples, found = [], []
    for o in outs:
        for k, v in o[3].items():
            keys[k] = keys.get(k, 0) + v
        for a, b in o[4].items():
            if isinstance(b, dict):
                d = stats.setdefault(a, {})
                for x, y in b.items():
                    d[x] = d.get(x, 0) + y
            else:
                stats[a] = stats.get(a, 0) + b
        samples += o[5]
        found += o[6]
        if o[7]:
            errs.append(o[7])
    known = load_known(check.prop)
    viol = []
    for sc, msg in sorted(found, key=lambda x: len(json.dumps(x[0]))):
        try:
            sc2, msg2 = minimise(check, sc, msg)
        except Exception:          # the violation counts, reduced or not
            traceback.print_exc()
            sc2, msg2 = sc, msg
        kf = [k for k in known if k["match"] in msg2]
        if not kf:
            viol.append((sc2, msg2))
            break
    wall = time.time() - t0
    search = max(0.001, wall - t_prep)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len([k for k in keys if k and not k.startswith("trivial")]),
        "rule": check.rule,
        "samples": samples[:3],
        "nontrivial_runs": nontriv,
        "simulated_runs_per_hour": int(runs / search * 3600),
        "seeds_per_hour": int(stats.get("seeds", runs) / search * 3600),
        "simulated_time": "logical: %d simulated operations in total (the code under test reads no clock)" % stats.get("ops", 0),
        "faults_injected": stats.get("faults", {}),
        "distinct_measure": check.measure if hasattr(check, "measure") else "distinct (outcome, fault, operation) signatures",
        "components_real": list(check.real),
        "components_stub": list(check.stub),
        "stats": {k: v for k, v in stats.items() if k != "faults"},
        "prepare_s": round(t_prep, 1),
    }
    ev = {"property": check.prop, "tier": check.tier, "seed": check.seed, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(wall, 1), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", "%s.json" % check.prop), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))
    if viol:
        sc, msg = viol[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        body = {"property": check.prop, "seed": check.seed, "violation": msg, "scenario": sc,
                "replay_cmd": "./check %s --replay <this file>" % check.prop}
        try:
            rr = run_isolated(check, sc) if check.isolate else run_guarded(check, sc)
            body["trace"] = rr.trace
            body["violation_on_replay"] = rr.violation
        except RuntimeError:
            pass
        name = "%s-%s.json" % (check.prop, hashlib.sha256(json.dumps(sc, sort_keys=True).encode()).hexdigest()[:12])
        path = os.path.join(rd, name)
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        print("violation: " + msg)
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if errs:
        print("check error:\n" + errs[0])
        return 2
    print("%s: %d runs (%d nontrivial, %d distinct) in %.1f s, prepare %.1f s, no violation" % (
        check.prop, runs, nontriv, cov["distinct_nontrivial"], wall, t_prep))
    return 0


def replay(check, path):
    with open(path) as f:
        body = json.load(f)
    broken = prepared(check)
    if broken:
        return unusable(check, broken, 0)
    scratch()
    if body["scenario"] is None:
        print("no violation on replay")
        return 0
    r = run_isolated(check, body["scenario"])
    for line in r.trace or []:
        print("  " + str(line))
    if r.violation:
        print("violation: " + r.violation)
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    print("no violation on replay")
    return 0
