"""Building the Rust driver (rs/*.rs) over the real Rust library."""
import fcntl
import hashlib
import os
import re
import shutil

from . import common, pylib
from .cppdrv import Driver, sid_name

RS = os.path.join(common.VERIF, "rs")
LIB = os.path.join(common.REPO, "flatdata-rs", "lib")


def snake(n):
    n = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", n)
    return n.lower()


def camel(n):
    return "".join(p.title() for p in n.split("_"))


def struct_glue(schema, s, mod):
    ns = mod + "::" + schema.ns.replace(".", "::")
    T = "%s::%s" % (ns, s.name)
    o = ["impl Row for %s {" % T, "  fn setf(&mut self, f: usize, v: u64) { match f {"]
    for i, f in enumerate(s.fields):
        if f.enum:
            st = "self.set_%s(unsafe { std::mem::transmute::<%s, %s::%s>(v as %s) })" % (f.name, f.type, ns, f.enum, f.type)
        elif f.type == "bool":
            st = "self.set_%s(v & 1 != 0)" % f.name
        elif f.optional:
            if i & 1:
                st = "self.set_%s(if v as %s == %s::%s { None } else { Some(v as %s) })" % (f.name, f.type, ns, f.optional, f.type)
            else:
                st = "self.set_%s(Some(v as %s))" % (f.name, f.type)
        else:
            st = "self.set_%s(v as %s)" % (f.name, f.type)
        o.append("    %d => { %s; }" % (i, st))
    o.append('    _ => panic!("driver: field") } }')
    o.append("  fn fill(&mut self, o: &Self) { self.fill_from(o); }")
    for name, rng in (("get", True), ("getm", False)):
        o.append("  fn %s(&self, o: &mut Vec<u64>) {" % name)
        for f in s.fields:
            if f.enum:
                o.append("    o.push(self.%s() as %s as i64 as u64);" % (f.name, f.type))
            elif f.optional:
                o.append("    { let x = self.%(n)s(); if x == Some(%(c)s) { o.push(0xBADBADBADBAD); } else { o.push(x.unwrap_or(%(c)s) as i64 as u64); } }"
                         % {"n": f.name, "c": "%s::%s" % (ns, f.optional)})
            elif f.type == "bool":
                o.append("    o.push(self.%s() as u64);" % f.name)
            else:
                o.append("    o.push(self.%s() as i64 as u64);" % f.name)
            if f.range and rng:
                o.append("    { let p = self.%s(); o.push(p.start as u64); o.push(p.end as u64); }" % f.range)
        o.append("  }")
    o.append("}")
    return "\n".join(o)


def archive_glue(schema, a, mod):
    ns = mod + "::" + schema.ns.replace(".", "::")
    T = "%s::%s" % (ns, a.name)
    X = "%s_%s" % (mod, a.name)
    o = []
    sets, starts, subs, dumps, edits, sets2, keeps, asubs = [], [], [], [], [], [], [], []
    for i, r in enumerate(a.resources):
        t = "%s::%s" % (ns, r.types[0]) if r.types else ""
        dump = None
        if r.kind == "vector":
            sets.append("%d => { let mut x = flatdata::Vector::<%s>::new(); for r in rows(v) { Row::set(x.grow(), &r); } self.0.set_%s(x.as_view()) }" % (i, t, r.name))
            starts.append("%d => Ok(VecStream::<%s>::make(self.0.start_%s()?))," % (i, t, r.name))
            dump = "dump_view(x, stride, at)"
            edits.append("%d => VecEdit::<%s>::make(%s)," % (i, t, "at_range" if schema.struct(r.types[0]).has_range else "at_plain"))
            sets2.append("%d => self.0.set_%s(e.any().downcast_ref::<VecEdit<%s>>().unwrap().v.as_view())," % (i, r.name, t))
        elif r.kind == "instance":
            sets.append("%d => { let mut x = %s::new(); Row::set(&mut x, &rows(v)[0]); self.0.set_%s(&x) }" % (i, t, r.name))
            dump = "dump_instance(x, stride, at)"
            edits.append("%d => InstEdit::<%s>::make()," % (i, t))
            sets2.append("%d => self.0.set_%s(&e.any().downcast_ref::<InstEdit<%s>>().unwrap().v)," % (i, r.name, t))
        elif r.kind == "raw_data":
            sets.append("%d => { let d = raw(v); self.0.set_%s(&d) }" % (i, r.name))
            dump = "dump_raw(x, stride, at)"
        elif r.kind == "multivector":
            st = "St_%s_%s" % (X, r.name)
            m = camel(r.name)
            o.append("multi_stream!(%s, %s::%s, %s::%sBuilder<'static>, %sRef, [crate::glue::%s], %s);" % (
                st, ns, m, ns, m, m, ns,
                ", ".join("(%d, %s, add_%s, %s::%s)" % (k, x, snake(x), ns, x) for k, x in enumerate(r.types))))
            starts.append("%d => Ok(%s::make(self.0.start_%s()?))," % (i, st, r.name))
            dump = "%s::dump(x, stride, at)" % st
        else:
            subs.append("%d => { let b: &'static dyn Builder = Box::leak(Box::new(B_%s_%s(self.0.%s()?))); Ok(b) }" % (i, mod, r.types[0], r.name))
        if r.kind == "archive":
            x = "Box::new(A_%s_%s(x.clone())) as Box<dyn Arch>" % (mod, r.types[0])
        else:
            x = {"vector": "SliceView::<%s>(unsafe { keep(x) })" % t, "instance": "InstView::<%s>(unsafe { keep(x) })" % t, "raw_data": "RawView(unsafe { std::mem::transmute(x) })",
                 "multivector": ""}[r.kind]
            x = "Box::new(%s) as Box<dyn View>" % x if x else "St_%s_%s::view(x)" % (X, r.name)
        (asubs if r.kind == "archive" else keeps).append("%d => %s," % (i, "self.0.%s().map(|x| %s)" % (r.name, x) if r.optional else "{ let x = self.0.%s(); Some(%s) }" % (r.name, x)))
        if r.kind == "archive":
            body = 'dump_%s_%s(o, x, &format!("{}%s/", path), stride, at);' % (mod, r.types[0], r.name)
        else:
            body = 'o.push_str(&format!("{}%s {}|", path, %s));' % (r.name, dump)
        if r.optional:
            dumps.append('match a.%s() { None => o.push_str(&format!("{}%s absent|", path)), Some(x) => { %s } }' % (r.name, r.name, body))
        else:
            dumps.append("{ let x = a.%s(); %s }" % (r.name, body))
    o.append("pub struct B_%s(%sBuilder);" % (X, T))
    o.append("impl Builder for B_%s {" % X)
    o.append('  fn set(&self, res: usize, v: &str) -> io::Result<()> { match res { %s _ => panic!("driver: setter") } }' % "\n    ".join(sets))
    o.append('  fn start(&\'static self, res: usize) -> io::Result<Box<dyn Stream>> { match res { %s _ => panic!("driver: stream") } }' % "\n    ".join(starts))
    o.append('  fn edit(&self, res: usize) -> Box<dyn Edit> { match res { %s _ => panic!("driver: edit") } }' % "\n    ".join(edits))
    o.append('  fn set_edit(&self, res: usize, e: &dyn Edit) -> io::Result<()> { match res { %s _ => panic!("driver: edit") } }' % "\n    ".join(sets2))
    o.append('  fn sub(&self, res: usize) -> Result<&\'static dyn Builder, ResourceStorageError> { match res { %s _ => panic!("driver: archive") } }' % "\n    ".join(subs))
    o.append("}")
    o.append("fn dump_%s(o: &mut String, a: &%s, path: &str, stride: usize, at: usize) {" % (X, T))
    o += ["  " + d for d in dumps]
    o.append('  o.push_str(&format!("{} open|", path));')
    o.append("}")
    o.append("struct A_%s(%s);" % (X, T))
    o.append("impl Arch for A_%s {" % X)
    o.append('  fn dump(&self, o: &mut String, stride: usize, at: usize) { dump_%s(o, &self.0, "", stride, at) }' % X)
    o.append('  fn debug(&self) -> String { format!("{:?}", self.0) }')
    o.append("  fn keep(&self, res: usize) -> Option<Box<dyn View>> { match res { %s _ => None } }" % "\n    ".join(keeps))
    o.append("  fn sub(&self, res: usize) -> Option<Box<dyn Arch>> { match res { %s _ => None } }" % "\n    ".join(asubs))
    o.append("  fn copy(&self) -> Box<dyn Arch> { Box::new(A_%s(self.0.clone())) }" % X)
    o.append("}")
    return "\n".join(o)


def glue(schemas):
    """schemas: list of (name, Schema, module file)"""
    o = ["#![allow(warnings)]", "use crate::drv::*;", "use flatdata::{ResourceStorageError, StorageHandle};", "use std::io;"]
    reg = []
    for k, (name, schema, path) in enumerate(schemas):
        mod = "g%d" % k
        o.append('#[path = "%s"] pub mod %s;' % (path, mod))
        o += [struct_glue(schema, s, mod) for s in schema.structs]
        o += [archive_glue(schema, a, mod) for a in schema.archives]
        ns = mod + "::" + schema.ns.replace(".", "::")
        o.append("fn mk_b_%s(i: usize, s: StorageHandle) -> Result<&'static dyn Builder, ResourceStorageError> { match i {" % mod)
        for i, a in enumerate(schema.archives):
            o.append("  %d => Ok(Box::leak(Box::new(B_%s_%s(%s::%sBuilder::new(s)?)))), " % (i, mod, a.name, ns, a.name))
        o.append('  _ => panic!("driver: archive") } }')
        o.append("fn mk_a_%s(i: usize, s: StorageHandle) -> Result<Box<dyn Arch>, ResourceStorageError> { match i {" % mod)
        for i, a in enumerate(schema.archives):
            o.append("  %d => Ok(Box::new(A_%s_%s(%s::%s::open(s)?)))," % (i, mod, a.name, ns, a.name))
        o.append('  _ => panic!("driver: archive") } }')
        reg.append('SchemaOps { name: "%s", builder: mk_b_%s, archive: mk_a_%s }' % (name, mod, mod))
    o.append("pub static SCHEMAS: &[SchemaOps] = &[%s];" % ", ".join(reg))
    return "\n".join(o) + "\n"


CARGO = """[package]
name = "drv"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
flatdata = { path = "%s", features = ["tar"] }
libc = "0.2"

[features]
threads = []

[patch.crates-io]
diff = { path = "diff" }

[profile.dev]
opt-level = 1
debug = 0
debug-assertions = true
overflow-checks = true
incremental = false
"""


TARGET = "x86_64-unknown-linux-gnu"


def put(path, text):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def lib_hash():
    return common.tree_hash(LIB, RS, os.path.join(common.VERIF, "shim"), os.path.join(common.VERIF, "cpp"),
                            exts=(".rs", ".toml", ".c", ".h"))


def cobject(src, name, flags):
    key = hashlib.sha256((common.tree_hash(os.path.dirname(src)) + " ".join(flags)).encode()).hexdigest()[:20]
    obj = os.path.join(common.BUILD, "%s-%s.o" % (name, key))
    if not os.path.exists(obj):
        tmp = "%s.%d.tmp.o" % (obj, os.getpid())
        common.run_cmd(["gcc"] + flags + ["-c", src, "-o", tmp])
        os.replace(tmp, obj)
    return obj


def build(sids, threads=False):
    """one driver binary for several schemas, cached by content"""
    os.makedirs(common.BUILD, exist_ok=True)
    mods = []
    for sid in sids:
        schema = pylib.schema_by_id(sid)
        code = pylib.rendered(schema, "rust")
        mods.append((sid_name(sid), schema, code))
    key = hashlib.sha256((lib_hash() + "".join(n + c for n, _, c in mods) + str(threads)).encode()).hexdigest()[:20]
    exe = os.path.join(common.BUILD, "rsdrv-%s" % key)
    if os.path.exists(exe):
        return exe
    kind = "rs-thr" if threads else "rs"
    proj = os.path.join(common.BUILD, kind)
    os.makedirs(proj, exist_ok=True)
    with open(os.path.join(proj, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        put(os.path.join(proj, "Cargo.toml"), CARGO % LIB)
        put(os.path.join(proj, "diff", "Cargo.toml"), '[package]\nname = "diff"\nversion = "0.1.13"\nedition = "2018"\n')
        for f in ("main.rs", "drv.rs", "threads.rs", "diff.rs"):
            p = os.path.join(RS, f)
            if os.path.exists(p):
                with open(p) as h:
                    put(os.path.join(proj, "diff/src/lib.rs" if f == "diff.rs" else "src/" + f), h.read())
        paths = []
        for k, (name, schema, code) in enumerate(mods):
            p = "gen_%s.rs" % hashlib.sha256(code.encode()).hexdigest()[:16]
            put(os.path.join(proj, "src", p), code)
            paths.append((name, schema, p))
        put(os.path.join(proj, "src", "glue.rs"), glue(paths))
        sim = cobject(os.path.join(common.VERIF, "shim", "simio.c"), "simio", ["-O2", "-g1", "-w", "-fPIC"])
        objs = [sim]
        flags = "--cap-lints allow"
        cargo = ["cargo"]
        env_more = {}
        if threads:
            env_more["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
            cargo = ["cargo", "+nightly"]
            flags += " -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
            objs.append(cobject(os.path.join(common.VERIF, "cpp", "thread_rt.c"), "thread_rt", ["-O2", "-g1", "-w", "-fno-builtin", "-fPIC", "-DTHR_FUTEX"]))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(common.BUILD, kind + "-target"), RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", **env_more)
        env.pop("LD_PRELOAD", None)
        cmd = cargo + ["rustc", "--offline", "--quiet", "--bin", "drv"] + (["--features", "threads", "--target", TARGET] if threads else []) + ["--"]
        for x in objs:
            cmd += ["-C", "link-arg=" + x]
        cmd += ["-C", "link-arg=-rdynamic", "-C", "link-arg=-ldl", "-C", "link-arg=-lpthread"]
        common.run_cmd(cmd, cwd=proj, env=env)
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        shutil.copy2(os.path.join(env["CARGO_TARGET_DIR"], TARGET if threads else "", "debug", "drv"), tmp)
        os.replace(tmp, exe)
    return exe
