"""A world in which code is generated: one interpreter with a given hash seed and environment.  It forks a child per request; the
child runs a history of actions and answers with what was produced.  Started by sim/determinism.py."""
import gc
import hashlib
import io
import json
import marshal
import os
import random
import sys
import threading

CACHE = None


def memo_compile():
    """compiling the templates takes 95 % of the time and is jinja's business: keep its results"""
    import jinja2.environment as je
    orig = je.Environment.compile
    known = {}

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        if not isinstance(source, str) or raw:
            return orig(self, source, name, filename, raw, defer_init)
        key = hashlib.sha256(repr((CACHE[1], sys.version, sys.flags.optimize, source, name, filename, self.trim_blocks, self.lstrip_blocks, self.keep_trailing_newline, self.newline_sequence,
                                   str(self.autoescape), self.optimized, sorted(self.filters), sorted(self.globals), sorted(self.extensions), self.variable_start_string, self.block_start_string)).encode()).hexdigest()[:24]
        if key not in known:
            path = os.path.join(CACHE[0], "tpl-%s.code" % key)
            try:
                with open(path, "rb") as f:
                    known[key] = marshal.load(f)
            except (OSError, ValueError, EOFError):
                known[key] = orig(self, source, name, filename, raw, defer_init)
                tmp = "%s.%d" % (path, os.getpid())
                with open(tmp, "wb") as f:
                    marshal.dump(known[key], f)
                os.replace(tmp, path)
        return known[key]
    je.Environment.compile = compile


# ---------------------------------------------------------------- threads, one line at a time
class Threads:
    """Runs functions in threads of which only one proceeds at a time; a seeded choice after every line of the generator's and the
    library's Python code (and of generated code) decides which."""

    def __init__(self, seed, permille):
        self.rng, self.permille = random.Random(seed), permille
        self.cv = threading.Condition()
        self.cur, self.alive, self.steps, self.switches = None, [], 0, 0

    def traced(self, frame):
        f = frame.f_code.co_filename
        return "/flatdata" in f or f == "<string>" or f.endswith(".jinja2") or f == "<template>"

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def glob(frame, event, arg):
            return local if self.traced(frame) else None
        return glob

    def point(self, me):
        self.steps += 1
        if self.rng.randrange(1000) >= self.permille or len(self.alive) < 2:
            return
        with self.cv:
            nxt = self.rng.choice(self.alive)
            if nxt == me:
                return
            self.switches += 1
            self.cur = nxt
            self.cv.notify_all()
            self.turn(me)

    def turn(self, me):
        seen = -1
        while self.cur != me:
            if not self.cv.wait(0.5):
                # the running thread waits for something another thread holds: let that one go on
                if seen == self.steps and self.cur in self.alive:
                    self.cur = self.alive[(self.alive.index(self.cur) + 1) % len(self.alive)]
                    self.cv.notify_all()
                seen = self.steps

    def run(self, fns):
        out = [None] * len(fns)

        def body(i):
            with self.cv:
                self.turn(i)
            sys.settrace(self.tracer(i))
            try:
                out[i] = fns[i]()
            finally:
                sys.settrace(None)
                with self.cv:
                    self.alive.remove(i)
                    self.cur = self.rng.choice(self.alive) if self.alive else None
                    self.cv.notify_all()
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(fns))]
        self.alive = list(range(len(fns)))
        for t in ts:
            t.start()
        with self.cv:
            self.cur = 0
            self.cv.notify_all()
        for t in ts:
            t.join()
        return out


# ---------------------------------------------------------------- actions
class History:
    def __init__(self, req):
        self.texts, self.dirs, self.scratch = req["texts"], req["dirs"], req["scratch"]
        self.engines = {}
        self.shared = {}
        self.out = []          # (item, content)
        self.switches = 0

    def engine(self, t, reuse):
        from flatdata.generator.engine import Engine
        if reuse and t in self.engines:
            return self.engines[t]
        e = Engine(self.texts[t])
        self.engines[t] = e
        return e

    def render(self, t, g, reuse):
        try:
            return self.engine(t, reuse).render(g)
        except Exception as e:
            return "!%s" % type(e).__name__

    def act(self, a):
        """-> list of (item, content)"""
        op = a[0]
        if op == "render":
            return [("r/%s/%s" % (a[1], a[2]), self.render(a[1], a[2], a[3]))]
        if op == "classes":
            code = self.render(a[1], "py", a[2])
            if code.startswith("!"):
                return [("i/%s" % a[1], code)]
            d = {}
            exec(code, d)
            return [("i/%s" % a[1], classes(d))]
        if op == "module":
            try:
                r = self.engine(a[1], a[3]).render_python_module(archive_name=a[2]) if a[2] else self.engine(a[1], a[3]).render_python_module()
                m = r[0] if isinstance(r, tuple) else r
                c = (r[1].__name__ if isinstance(r, tuple) else "-") + "\n" + m.__name__ + "\n" + classes(m.__dict__)
            except Exception as e:
                c = "!%s" % type(e).__name__
            return [("m/%s/%s" % (a[1], a[2]), c)]
        if op == "open":
            return [("o/%s" % a[1], self.show(a[1], a[2]))]
        if op == "app":
            return [("r/%s/%s" % (a[1], a[2]), self.app(a[1], a[2]))]
        if op == "bad":
            from flatdata.generator.engine import Engine
            try:
                Engine(a[1]).render("py")
            except Exception:
                pass
            return []
        if op == "chdir":
            os.chdir(a[1])
        elif op == "environ":
            os.environ[a[1]] = a[2]
        elif op == "random":
            random.seed(a[1])
        elif op == "gc":
            gc.collect() if a[1] == "now" else gc.disable() if a[1] == "off" else gc.set_threshold(1)
        elif op == "locale":
            import locale
            try:
                locale.setlocale(locale.LC_ALL, a[1])
            except locale.Error:
                pass
        elif op == "threads":
            th = Threads(a[1], a[2])
            got = th.run([lambda x=x: [y for z in x for y in self.act(z)] for x in a[3]])
            self.switches += th.switches
            return [y for x in got for y in (x if x is not None else [("thread", "!died")])]
        return []

    def app(self, t, g):
        import logging
        from flatdata.generator import app
        src, dst = os.path.join(self.scratch, "in.%d" % threading.get_ident()), os.path.join(self.scratch, "out.%d" % threading.get_ident())
        with open(src, "wb") as f:
            f.write(self.texts[t].encode("utf8"))
        logging.root.handlers.clear()
        argv = sys.argv
        sys.argv = ["flatdata-generator", "-s", src, "-g", g, "-O", dst]
        try:
            app.main()
        except SystemExit as e:
            return "!exit %s" % e.code
        except Exception as e:
            return "!%s" % type(e).__name__
        finally:
            sys.argv = argv
        with open(dst, "rb") as f:
            return f.read().decode("utf8", "surrogateescape")

    def show(self, t, reuse):
        from flatdata.lib.file_resource_storage import FileResourceStorage
        arch, path = self.dirs[t]
        code = self.render(t, "py", reuse)
        d = {}
        exec(code, d)
        c = [x for n, x in d.items() if n.endswith("_" + arch)][0]
        a = c(FileResourceStorage(path))
        out = io.StringIO()
        print(dir(a), len(a), list(a.to_data_frame().columns), file=out)
        print(repr(a), file=out)
        for n in dir(a):
            r = getattr(a, n)
            if r is None or n == "schema":
                continue
            print(n, type(r).__name__, len(r), repr(r), file=out)
            k = type(r).__name__
            if k in ("Vector", "Instance") and len(r):
                e = r[0]
                print(list(e), e.as_dict(), e.as_tuple(), e.as_list(), dir(e), repr(e), e.dtype(), e.as_nparray(), file=out)
                if k == "Vector":
                    print(r[0:2].to_numpy(), r[0:3].to_data_frame(), file=out)
            if k == "Multivector" and len(r):
                for b in list(r)[:3]:
                    print([(type(e).__name__, e.as_dict()) for e in b], file=out)
        return out.getvalue()


def classes(d):
    """what a generated module presents"""
    out = io.StringIO()
    for n, c in d.items():
        if not isinstance(c, type) or getattr(c, "__module__", "").startswith("flatdata."):
            continue
        print("class", n, [b.__name__ for b in c.__mro__], repr(c.__doc__), file=out)
        for k in ("_SCHEMA", "_NAME", "_SIZE_IN_BITS", "_SIZE_IN_BYTES", "_FIELDS", "_FIELD_KEYS", "_RESOURCES"):
            if hasattr(c, k):
                v = getattr(c, k)
                if isinstance(v, (set, frozenset)):
                    v = sorted(v)
                print("  ", k, list(v.items()) if isinstance(v, dict) else v, file=out)
        for k, v in vars(c).items():
            if not k.startswith("__") and not k.startswith("_"):
                print("  ", k, v if isinstance(v, (int, str)) else type(v).__name__, file=out)
    import re
    return re.sub(r"0x[0-9a-f]{6,}", "0x", out.getvalue())


def serve():
    global CACHE
    CACHE = sys.argv[1], sys.argv[2]
    memo_compile()
    import flatdata.generator.app  # noqa
    import flatdata.generator.engine as eng
    import flatdata.lib.file_resource_storage  # noqa
    warm = sys.stdin.buffer.readline()
    for g in ("cpp", "py", "go", "rust", "dot", "flatdata"):
        try:
            eng.Engine(json.loads(warm)).render(g)
        except Exception:
            pass
    gc.collect()
    gc.freeze()
    out = os.fdopen(os.dup(1), "wb")
    null = os.open("/dev/null", os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    for line in sys.stdin.buffer:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                req = json.loads(line)
                h = History(req)
                for a in req["acts"]:
                    h.out += h.act(a)
                full = req.get("full")
                ans = {"out": [[k, v if full else hashlib.sha256(v.encode("utf8", "surrogateescape")).hexdigest()[:20] + ("" if not v.startswith("!") else v)] for k, v in h.out], "switches": h.switches}
            except BaseException as e:
                import traceback
                ans = {"error": traceback.format_exc()[-1500:]}
            with os.fdopen(w, "wb") as f:
                f.write(json.dumps(ans).encode() + b"\n")
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if not data:
            data = json.dumps({"error": "died with status %d" % st}).encode() + b"\n"
        out.write(data)
        out.flush()


if __name__ == "__main__":
    serve()
