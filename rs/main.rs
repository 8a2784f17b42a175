// Command interpreter around the real flatdata Rust library; every scenario runs in a forked child.
#![allow(warnings)]
#[macro_use]
extern crate flatdata;
#[macro_use]
mod drv;
mod glue;

use drv::*;
use flatdata::{FileResourceStorage, MemoryResourceStorage, RawData, ResourceStorageError, StorageHandle, TarArchiveResourceStorage};
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::io::{BufRead, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn sim_begin(p: *const i8);
    fn sim_end();
    fn sim_capacity(b: i64);
    fn sim_rule(index: i64, klass: i32, sub: *const i8, skip: i64, action: i32, arg: i64, err: i32, count: i64);
    fn sim_clear_rules();
    fn sim_thaw();
    fn sim_frozen(p: i32) -> i32;
    fn sim_ops() -> i64;
    fn sim_log() -> *const i8;
    fn sim_kind(k: i32) -> i64;
}

fn hard() -> i64 {
    unsafe { sim_kind(1) + sim_kind(4) + sim_kind(16) }
}

/// while it lives, the thread simulator watches and schedules what this thread does
struct Armed {
    _before: i32,
}
impl Armed {
    fn new() -> Self {
        #[cfg(feature = "threads")]
        return Armed { _before: unsafe { thr_in_lib(1) } };
        #[cfg(not(feature = "threads"))]
        Armed { _before: 0 }
    }
}
impl Drop for Armed {
    fn drop(&mut self) {
        #[cfg(feature = "threads")]
        if self._before != 0 {
            unsafe { thr_in_lib(0) };
        }
    }
}
macro_rules! lib {
    ($x:expr) => {{
        let _armed = Armed::new();
        let x = $x;
        x
    }};
}

fn unhex(x: &str) -> String {
    let x = x.trim_start_matches('-').as_bytes();
    String::from_utf8((0..x.len() / 2).map(|i| u8::from_str_radix(std::str::from_utf8(&x[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()).unwrap()
}
fn hex(x: &str) -> String {
    format!("-{}", x.bytes().map(|b| format!("{:02x}", b)).collect::<String>())
}

trait WriteSeek: std::io::Write + std::io::Seek {}
impl<T: std::io::Write + std::io::Seek> WriteSeek for T {}

struct Interp {
    stor: HashMap<String, StorageHandle>,
    builders: HashMap<String, &'static dyn Builder>,
    streams: HashMap<String, Box<dyn Stream>>,
    archs: HashMap<String, Box<dyn Arch>>,
    edits: HashMap<String, (usize, Box<dyn Edit>)>,
    raws: HashMap<String, Box<dyn WriteSeek>>,
    views: HashMap<String, Box<dyn View>>,
    curs: HashMap<String, Box<dyn Cur>>,
}

fn io_text(r: std::io::Result<()>) -> String {
    match r {
        Ok(()) => "true".into(),
        Err(e) => format!("false {:?}", e.kind()),
    }
}

impl Interp {
    fn new() -> Self {
        crc(0, &[]);
        Interp { stor: HashMap::new(), builders: HashMap::new(), streams: HashMap::new(), archs: HashMap::new(), edits: HashMap::new(), raws: HashMap::new(), views: HashMap::new(), curs: HashMap::new() }
    }

    // what is found here stays valid while other threads add things (see the thread simulator)
    fn storage(&self, id: &str) -> Option<StorageHandle> {
        self.stor.get(id).cloned()
    }
    fn builder(&self, id: &str) -> Option<&'static dyn Builder> {
        self.builders.get(id).copied()
    }
    fn stream(&mut self, id: &str) -> Option<&'static mut dyn Stream> {
        self.streams.get_mut(id).map(|s| unsafe { std::mem::transmute::<&mut dyn Stream, &'static mut dyn Stream>(&mut **s) })
    }
    fn arch(&self, id: &str) -> Option<&'static dyn Arch> {
        self.archs.get(id).map(|s| unsafe { std::mem::transmute::<&dyn Arch, &'static dyn Arch>(&**s) })
    }

    fn ops(name: &str) -> &'static SchemaOps {
        glue::SCHEMAS.iter().find(|s| s.name == name).expect("driver: schema")
    }

    fn command(&mut self, t: &[&str]) -> String {
        let i = |k: usize| t[k].parse::<i64>().unwrap();
        let c = t[0];
        unsafe {
            match c {
                "B" => {
                    sim_begin(CString::new(t[1]).unwrap().as_ptr() as _);
                    return "ok".into();
                }
                "R" => {
                    let s = CString::new(if t[3] == "-" { "" } else { t[3] }).unwrap();
                    sim_rule(i(1), i(2) as i32, s.as_ptr() as _, i(4), i(5) as i32, i(6), i(7) as i32, i(8));
                    return "ok".into();
                }
                "C" => {
                    sim_capacity(i(1));
                    return "ok".into();
                }
                "X" => {
                    sim_clear_rules();
                    return "ok".into();
                }
                "E" => {
                    sim_end();
                    return "ok".into();
                }
                "T" => {
                    // the process is gone: nothing of it is closed in an orderly way, but its descriptors are
                    self.streams.clear();
                    self.archs.clear();
                    self.builders.clear();
                    self.stor.clear();
                    sim_thaw();
                    return "ok".into();
                }
                "L" => {
                    let mut o = format!("log {}", sim_ops());
                    for k in [1, 2, 3, 4, 16, 20] {
                        o += &format!(" {}", sim_kind(k));
                    }
                    o += " |";
                    o += &CStr::from_ptr(sim_log() as _).to_string_lossy().replace('\n', "|");
                    return o;
                }
                _ => {}
            }
            if sim_frozen(0) != 0 {
                return "-".into();
            }
        }
        match c {
            "S" => {
                self.stor.remove(t[1]);
                let s: StorageHandle = match t[2] {
                    "fc" | "fo" => lib!(FileResourceStorage::new(t[3])),
                    "mem" => lib!(MemoryResourceStorage::new("/mem")),
                    "tar" => match lib!(TarArchiveResourceStorage::new(t[3])) {
                        Ok(s) => s,
                        Err(e) => return format!("fail {:?}", e.kind()),
                    },
                    _ => return "unknown-command".into(),
                };
                self.stor.insert(t[1].into(), s);
                "ok".into()
            }
            "G" => {
                // G <generator> <PATH> <source of the generator> <schemas> <destination> <file for what is printed>
                let x: Vec<String> = t[1..].iter().map(|x| unhex(x)).collect();
                for (k, v) in [("FLATDATA_GENERATOR_BIN", &x[0]), ("PATH", &x[1]), ("FLATDATA_GENERATOR_PATH", &x[2])] {
                    if v.is_empty() {
                        std::env::remove_var(k)
                    } else {
                        std::env::set_var(k, v)
                    }
                }
                std::env::set_var("STUB_ROOT", std::path::Path::new(&x[5]).parent().unwrap());
                let r;
                unsafe {
                    let _ = std::io::stdout().flush();
                    let (o, e) = (libc::dup(1), libc::dup(2));
                    let f = libc::open(CString::new(x[5].clone()).unwrap().as_ptr(), libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC | libc::O_APPEND, 0o644);
                    let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(f, 1);
                    libc::dup2(n, 2);
                    r = catch_unwind(AssertUnwindSafe(|| flatdata::generate(&x[3], &x[4])));
                    let _ = std::io::stdout().flush();
                    libc::dup2(o, 1);
                    libc::dup2(e, 2);
                    for d in [o, e, f, n] {
                        libc::close(d);
                    }
                }
                use flatdata::GeneratorError as E;
                match r {
                    Err(_) => "panic".into(),
                    Ok(Ok(())) => "ok".into(),
                    Ok(Err(e)) => {
                        let shown = e.to_string();
                        match e {
                            E::PythonError(_) => "python".into(),
                            E::Io(e) => format!("io {:?}", e.kind()),
                            E::Failure { schema, destination, error } => {
                                let named = shown.contains(&*schema.to_string_lossy()) && shown.contains(&*destination.to_string_lossy());
                                format!("failure {} {} {}", hex(&schema.to_string_lossy()), hex(&destination.to_string_lossy()), named)
                            }
                        }
                    }
                }
            }
            "SD" => match self.storage(t[2]) {
                None => "none".into(),
                Some(s) => {
                    let x = lib!(s.subdir(t[3]));
                    self.stor.insert(t[1].into(), x);
                    "ok".into()
                }
            },
            "SX" => {
                let s = self.stor.remove(t[1]);
                lib!(std::mem::drop(s));
                "ok".into()
            }
            "SR" => match self.storage(t[1]) {
                // read the files of a storage
                None => "none".into(),
                Some(s) => t[2..]
                    .iter()
                    .map(|f| match lib!(s.read_resource(f)) {
                        Ok(d) => format!("{}:{}", d.len(), crc(0, d)),
                        Err(_) => format!("{}", if lib!(s.exists(f)) { "unreadable" } else { "-" }),
                    })
                    .collect::<Vec<_>>()
                    .join(" "),
            },
            "ex" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => format!("{}", lib!(s.exists(t[2]))),
            },
            "rs" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => match lib!(s.read_resource(&format!("{}.schema", t[2]))) {
                    Ok(d) => dump_raw(RawData::new(d), 1, 0),
                    Err(e) => format!("failed {:?}", e.kind()),
                },
            },
            "rd" | "rx" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => {
                    let schema = if c == "rx" { t[3].to_string() } else {
                        match lib!(s.read_resource(&format!("{}.schema", t[2]))) {
                            Ok(d) => String::from_utf8_lossy(d).into_owned(),
                            Err(_) => String::new(),
                        }
                    };
                    match lib!(s.read(t[2], &schema)) {
                        Ok(d) => dump_raw(RawData::new(d), 1, 0),
                        Err(e) => format!("failed {}", error_text(&e)),
                    }
                }
            },
            "dg" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => format!("text {}", lib!(format!("{:?}", s)).len() > 0),
            },
            // an output stream of a storage: create, write, position, flush, close, read what it stored
            "yo" => match self.storage(t[2]) {
                None => "none".into(),
                Some(s) => match lib!(s.create_output_stream(t[3])) {
                    Ok(x) => {
                        self.raws.insert(t[1].into(), Box::new(x));
                        "ok".into()
                    }
                    Err(e) => format!("failed {:?}", e.kind()),
                },
            },
            "yw" | "ya" | "yk" | "yf" => match self.raws.get_mut(t[1]) {
                None => "none".into(),
                Some(x) => match c {
                    "yw" => match lib!(x.write(&raw(t[2]))) {
                        Ok(n) => format!("wrote {}", n),
                        Err(e) => format!("failed {:?}", e.kind()),
                    },
                    "ya" => io_text(lib!(x.write_all(&raw(t[2])))),
                    "yf" => io_text(lib!(x.flush())),
                    _ => {
                        let p = match t[2] {
                            "s" => std::io::SeekFrom::Start(i(3) as u64),
                            "c" => std::io::SeekFrom::Current(i(3)),
                            _ => std::io::SeekFrom::End(i(3)),
                        };
                        match lib!(x.seek(p)) {
                            Ok(n) => format!("at {}", n),
                            Err(e) => format!("failed {:?}", e.kind()),
                        }
                    }
                },
            },
            "yc" => {
                let x = self.raws.remove(t[1]);
                lib!(std::mem::drop(x));
                "ok".into()
            }
            "yr" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => match lib!(s.read_resource(t[2])) {
                    Ok(d) => dump_raw(RawData::new(d), 1, 0),
                    Err(e) => format!("failed {:?}", e.kind()),
                },
            },
            "wr" => match self.storage(t[1]) {
                None => "none".into(),
                Some(s) => {
                    let d = raw(t[4]);
                    io_text(lib!(s.write(t[2], t[3], &d)))
                },
            },
            "b" => {
                self.builders.remove(t[1]);
                match self.storage(t[4]) {
                    None => "none".into(),
                    Some(s) => match lib!((Self::ops(t[2]).builder)(i(3) as usize, s.clone())) {
                        Ok(b) => {
                            self.builders.insert(t[1].into(), b);
                            "open".into()
                        }
                        Err(e) => format!("closed {}", error_text(&e)),
                    },
                }
            }
            "bs" => {
                self.builders.remove(t[1]);
                match self.builder(t[2]) {
                    None => "none".into(),
                    Some(b) => match lib!(b.sub(i(3) as usize)) {
                        Ok(b) => {
                            self.builders.insert(t[1].into(), b);
                            "open".into()
                        }
                        Err(e) => format!("closed {}", error_text(&e)),
                    },
                }
            }
            "pn" => match self.builder(t[2]) {
                None => "none".into(),
                Some(b) => {
                    let mut e = b.edit(i(3) as usize);
                    e.at(0, 0);
                    self.edits.insert(t[1].into(), (i(3) as usize, e));
                    "ok".into()
                }
            },
            "pg" | "prv" | "pcl" | "pwl" | "pat" | "pf" | "pfr" | "psz" | "pd" | "pcp" | "pfi" | "pset" => {
                let (res, e) = match self.edits.get_mut(t[1]) {
                    None => return "none".into(),
                    Some(x) => (x.0, &mut x.1),
                };
                let ok = |x| if x { "ok".to_string() } else { "none".to_string() };
                match c {
                    "pg" => {
                        let x = e.vector('g', 0);
                        if x && t.len() > 2 {
                            e.cur().unwrap().set(&row(t[2]));
                        }
                        ok(x)
                    }
                    "prv" => ok(e.vector('v', i(2) as usize)),
                    "pcl" => ok(e.vector('c', 0)),
                    "pwl" => ok(e.vector('w', i(2) as usize)),
                    "pat" => ok(e.at(i(2) as usize, i(3) as usize)),
                    "pfi" => ok(e.fill(i(2) as usize, i(3) as usize)),
                    "pf" => match e.cur() {
                        None => "none".into(),
                        Some(r) => {
                            r.setf(i(2) as usize, num(t[3]));
                            "ok".into()
                        }
                    },
                    "pfr" => match e.cur() {
                        None => "none".into(),
                        Some(r) => {
                            let mut o = vec![];
                            r.getm(&mut o);
                            format!("row {}", row_text(&o))
                        }
                    },
                    "psz" => format!("size {}", e.len()),
                    "pd" => e.dump(),
                    "pcp" => {
                        let n = e.copy();
                        self.edits.insert(t[2].into(), (res, n));
                        "ok".into()
                    }
                    _ => match self.builders.get(t[2]) {
                        None => "none".into(),
                        Some(b) => io_text(lib!(b.set_edit(res, &**e))),
                    },
                }
            }
            "bd" => {
                self.builders.remove(t[1]);
                "ok".into()
            }
            "set" => match self.builder(t[1]) {
                None => "none".into(),
                Some(b) => io_text(lib!(b.set(i(2) as usize, t.get(3).unwrap_or(&"")))),
            },
            "st" => {
                let s = self.streams.remove(t[1]);
                lib!(std::mem::drop(s));
                match self.builder(t[2]) {
                    None => "none".into(),
                    Some(b) => match lib!(b.start(i(3) as usize)) {
                        Ok(s) => {
                            self.streams.insert(t[1].into(), s);
                            "ok".into()
                        }
                        Err(e) => format!("failed {:?}", e.kind()),
                    },
                }
            }
            "g" | "g0" | "gt" | "mg" | "ma" | "ma0" | "mt" | "f" | "fr" | "sz" | "c" => {
                let s = match self.stream(t[1]) {
                    None => return "none".into(),
                    Some(s) => s,
                };
                match c {
                    "g" | "g0" => {
                        if let Err(e) = lib!(s.grow()) {
                            return format!("failed {:?}", e.kind());
                        }
                        if c == "g" {
                            let v = &row(t[2]);
lib!(s.cur().unwrap().set(v));
                        }
                        "ok".into()
                    }
                    "gt" => {
                        let v = rows(t[3]);
                        for _ in 0..i(2) {
                            for r in &v {
                                if let Err(e) = lib!(s.grow()) {
                                    return format!("failed {:?}", e.kind());
                                }
                                let v = r;
lib!(s.cur().unwrap().set(v));
                            }
                        }
                        "ok".into()
                    }
                    "mg" => match lib!(s.bucket()) {
                        Ok(()) => "ok".into(),
                        Err(e) => format!("failed {:?}", e.kind()),
                    },
                    "ma" | "ma0" => {
                        if !lib!(s.add(i(2) as usize)) {
                            return "none".into();
                        }
                        if c == "ma" {
                            let v = &row(t[3]);
lib!(s.cur().unwrap().set(v));
                        }
                        "ok".into()
                    }
                    "mt" => {
                        let mut els = vec![];
                        if t.len() > 3 && t[3] != "-" {
                            for x in t[3].split(';') {
                                let (k, v) = x.split_once(':').unwrap();
                                els.push((k.parse::<usize>().unwrap(), row(v)));
                            }
                        }
                        for _ in 0..i(2) {
                            if let Err(e) = lib!(s.bucket()) {
                                return format!("failed {:?}", e.kind());
                            }
                            for (k, v) in &els {
                                lib!(s.add(*k));
                                let v = v;
lib!(s.cur().unwrap().set(v));
                            }
                        }
                        s.drop_cur();
                        "ok".into()
                    }
                    "f" => match s.cur() {
                        None => "none".into(),
                        Some(r) => {
                            lib!(r.setf(i(2) as usize, num(t[3])));
                            "ok".into()
                        }
                    },
                    "fr" => match s.cur() {
                        None => "none".into(),
                        Some(r) => {
                            let mut o = vec![];
                            lib!(r.getm(&mut o));
                            format!("row {}", row_text(&o))
                        }
                    },
                    "sz" => format!("size {}", s.len()),
                    _ => match lib!(s.close()) {
                        None => "closed".into(),
                        Some(Ok(d)) => d,
                        Some(Err(e)) => format!("invalid {}", error_text(&e)),
                    },
                }
            }
            "drop" => {
                let s = self.streams.remove(t[1]);
                lib!(std::mem::drop(s));
                "ok".into()
            }
            "o" => {
                let a = self.archs.remove(t[1]);
                lib!(std::mem::drop(a));
                match self.storage(t[4]) {
                    None => "none".into(),
                    Some(s) => match lib!((Self::ops(t[2]).archive)(i(3) as usize, s.clone())) {
                        Ok(a) => {
                            self.archs.insert(t[1].into(), a);
                            "open".into()
                        }
                        Err(e) => format!("closed {}", error_text(&e)),
                    },
                }
            }
            "d" | "dp" => match self.arch(t[1]) {
                None => "none".into(),
                Some(a) => {
                    let mut o = String::new();
                    let (n, k) = if c == "d" { (1, 0) } else { (i(2) as usize, i(3) as usize) };
                    lib!(a.dump(&mut o, n, k));
                    o
                }
            },
            "ds" => match self.arch(t[1]) {
                None => "none".into(),
                Some(a) => format!("text {}", lib!(a.debug()).replace('\n', "|")),
            },
            "ax" => {
                let a = self.archs.remove(t[1]);
                lib!(std::mem::drop(a));
                "ok".into()
            }
            // files changed behind the library's back
            "rn" | "ul" => {
                let a = CString::new(t[1]).unwrap();
                unsafe {
                    if c == "rn" {
                        let b = CString::new(t[2]).unwrap();
                        libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a.as_ptr(), libc::AT_FDCWD, b.as_ptr());
                    } else {
                        libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a.as_ptr(), 0);
                    }
                }
                "ok".into()
            }
            "mkd" => {
                let a = CString::new(t[1]).unwrap();
                unsafe { libc::syscall(libc::SYS_mkdirat, libc::AT_FDCWD, a.as_ptr(), 0o755) };
                "ok".into()
            }
            "as" | "acl" => match self.arch(t[2]) {
                None => "none".into(),
                Some(a) => match if c == "as" { lib!(a.sub(i(3) as usize)) } else { Some(lib!(a.copy())) } {
                    None => "absent".into(),
                    Some(x) => {
                        self.archs.insert(t[1].into(), x);
                        "open".into()
                    }
                },
            },
            "vk" => match self.arch(t[2]) {
                None => "none".into(),
                Some(a) => match lib!(a.keep(i(3) as usize)) {
                    None => "absent".into(),
                    Some(x) => {
                        self.views.insert(t[1].into(), x);
                        "ok".into()
                    }
                },
            },
            "vd" | "vl" | "ik" => {
                let k = if c == "vl" { 1 } else { 2 };
                let n = |j: usize| t.get(j).map(|x| x.parse::<usize>().unwrap()).unwrap_or(0);
                let v: &'static dyn View = match self.views.get(t[k]) {
                    None => return "none".into(),
                    Some(v) => unsafe { keep(&**v) },
                };
                match c {
                    "vl" => lib!(v.look(t[2], n(3), n(4))),
                    "vd" => match lib!(v.derive(t[3], n(4), n(5))) {
                        None => "none".into(),
                        Some(x) => {
                            self.views.insert(t[1].into(), x);
                            "ok".into()
                        }
                    },
                    _ => match lib!(v.cursor(t[3], n(4))) {
                        None => "none".into(),
                        Some(x) => {
                            self.curs.insert(t[1].into(), x);
                            "ok".into()
                        }
                    },
                }
            }
            "il" => match self.curs.get_mut(t[1]) {
                None => "none".into(),
                Some(x) => lib!(x.step(t[2], t.get(3).map(|x| x.parse::<usize>().unwrap()).unwrap_or(0))),
            },
            "icp" => match self.curs.get(t[2]).map(|x| x.copy()) {
                None => "none".into(),
                Some(x) => {
                    self.curs.insert(t[1].into(), x);
                    "ok".into()
                }
            },
            _ => "unknown-command".into(),
        }
    }

    fn run(&mut self, line: &str) -> String {
        let t: Vec<&str> = line.split(' ').collect();
        match catch_unwind(AssertUnwindSafe(|| self.command(&t))) {
            Ok(s) => s,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic {}", m.replace('\n', " "))
            }
        }
    }
}

fn put(s: &str) {
    let mut b = s.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(1, b.as_ptr() as _, b.len()) };
        if n <= 0 {
            unsafe { libc::_exit(3) };
        }
        b = &b[n as usize..];
    }
}

#[cfg(feature = "threads")]
include!("threads.rs");

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let timeout: u32 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(60);
    #[cfg(feature = "threads")]
    thread_setup();
    let stdin = std::io::stdin();
    let mut input = stdin.lock();
    let mut line = String::new();
    loop {
        line.clear();
        if input.read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        if !line.starts_with("RUN ") {
            continue;
        }
        let n: usize = line[4..].trim().parse().unwrap();
        let mut lines = vec![];
        for _ in 0..n {
            let mut l = String::new();
            input.read_line(&mut l).unwrap();
            lines.push(l.trim_end_matches('\n').to_string());
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::alarm(timeout) };
            #[cfg(feature = "threads")]
            run_lines(&lines);
            #[cfg(not(feature = "threads"))]
            {
                let mut int = Interp::new();
                for l in &lines {
                    let before = unsafe { sim_frozen(0) };
                    let mut r = int.run(l);
                    if unsafe { sim_frozen(0) } != 0 && before == 0 {
                        r = "-".into(); // the process stopped inside this command
                    }
                    put(&format!("H{} {}\n", hard(), r));
                }
                put("@destroy\n");
            }
            put("@done\n");
            unsafe { libc::_exit(0) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let code = if libc::WIFSIGNALED(st) { 1000 + libc::WTERMSIG(st) } else { libc::WEXITSTATUS(st) };
        put(&format!("END {}\n", code));
    }
}
