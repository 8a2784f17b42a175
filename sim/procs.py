"""Simulated processes: forked copies of a warmed-up interpreter, each of which only ever takes one file-system
call at a time, when the scheduler in the parent lets it.  One seed or recorded plan = one execution."""
import gc
import os
import random
import sys

from . import simlib

KN = {v: k for k, v in simlib.KLASS.items()}


class Proc:
    """one attempt of a slot"""
    __slots__ = ("pid", "rd", "wr", "buf", "next", "ops", "slot", "result", "faults")


class World:
    """Runs slots concurrently.  A slot is a generator of (function, rules) attempts; it is sent the attempt's result."""

    def __init__(self, prefix, seed, permille, plan=None, max_steps=20000):
        self.prefix, self.rng, self.permille = prefix, random.Random(seed), permille
        self.plan, self.pos = plan, 0
        self.picked, self.trace, self.max_steps = [], [], max_steps
        self.kinds, self.nops, self.switches, self.attempts = {}, 0, 0, 0
        self.live, self.last_faults = {}, []

    def run(self, slots, on_end):
        """slots: list of generators; on_end(slot, result, running) after every attempt"""
        todo = {i: g for i, g in enumerate(slots)}
        spec, procs = {}, self.live
        for i, g in list(todo.items()):
            try:
                spec[i] = next(g)
            except StopIteration:
                del todo[i]
        cur = None
        try:
            while todo:
                i = self.pick(sorted(todo), cur)
                self.picked.append(i)
                if cur is not None and i != cur:
                    self.switches += 1
                cur = i
                if len(self.picked) > self.max_steps:
                    return "steps"
                if i not in procs:
                    procs[i] = self.start(i, *spec[i])
                    self.attempts += 1
                    self.trace.append("%d starts" % i)
                else:
                    self.trace.append("%d %s" % (i, procs[i].next))
                    os.write(procs[i].wr, b"g")
                    self.nops += 1
                res = self.wait(procs[i])
                if res is None:
                    continue
                p = procs.pop(i)
                os.close(p.rd)
                os.close(p.wr)
                os.waitpid(p.pid, 0)
                self.trace.append("%d ends: %s%s" % (i, res, " with " + " ".join(p.faults) if p.faults else ""))
                self.last_faults = p.faults
                on_end(i, res, sorted(procs))
                try:
                    spec[i] = todo[i].send((res, p.faults))
                except StopIteration:
                    del todo[i]
        finally:
            self.close()

    def close(self):
        for p in self.live.values():
            os.close(p.wr)          # at its next call the process finds nobody to ask and ends
            while os.read(p.rd, 65536):
                pass
            os.close(p.rd)
            os.waitpid(p.pid, 0)
        self.live.clear()

    def pick(self, alive, cur):
        if self.plan is not None:
            c = self.plan[self.pos] if self.pos < len(self.plan) else cur
            self.pos += 1
            return c if c in alive else (cur if cur in alive else alive[0])
        if cur in alive and self.rng.randrange(1000) >= self.permille:
            return cur
        return self.rng.choice(alive)

    def start(self, slot, fn, rules):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r1)
                os.close(w2)
                for q in self.live.values():
                    os.close(q.rd)
                    os.close(q.wr)
                null = os.open("/dev/null", os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                sys.stdout = sys.stderr = open(os.devnull, "w")
                lib = simlib.lib()
                simlib.begin(self.prefix, rules)
                lib.sim_remote(w1, r2)
                try:
                    fn()
                    out = "ok"
                except SystemExit as e:
                    out = "ok" if e.code in (None, 0) else "exit %s" % e.code
                except BaseException as e:
                    out = "%s: %s" % (type(e).__name__, " ".join(str(e).split())[:150])
                    e = None
                gc.collect()
                lib.sim_remote(-1, -1)
                lib.sim_end()
                fl = ["%s:%s:%s" % (e[2], e[3].split("/")[-1], e[6]) for e in simlib.log() if e[6]]
                os.write(w1, ("E %s\x01%s\n" % (out, "\x02".join(fl))).encode())
            finally:
                os._exit(0)
        os.close(w1)
        os.close(r2)
        p = Proc()
        p.pid, p.rd, p.wr, p.buf, p.slot, p.ops, p.faults = pid, r1, w2, b"", slot, 0, []
        return p

    def wait(self, p):
        """until the process is about to make a call (None) or has ended (its result)"""
        killed = None
        while True:
            while b"\n" not in p.buf:
                b = os.read(p.rd, 65536)
                if not b:
                    return killed or "died"
                p.buf += b
            line, p.buf = p.buf.split(b"\n", 1)
            line = line.decode("utf8", "replace")
            if line[0] == "E":
                out, fl = line[2:].split("\x01")
                p.faults = [x for x in fl.split("\x02") if x]
                for f in p.faults:
                    k = f.split(":")[-1]
                    k = {"short": "short_write", "diskfull": "disk_full", "errno=4": "interrupted_call"}.get(k, "torn_write_error" if k.startswith("torn") else "errno")
                    self.kinds[k] = self.kinds.get(k, 0) + 1
                return out
            _, k, rest = line.split(" ", 2)
            if line[0] == "C":
                self.kinds["kill"] = self.kinds.get("kill", 0) + 1
                p.faults = ["kill:" + KN.get(int(k), k)]
                killed = "killed at %s %s" % (KN.get(int(k), k), rest.strip())
                continue
            p.ops += 1
            p.next = "%s %s" % (KN.get(int(k), k), rest.strip())
            return None
