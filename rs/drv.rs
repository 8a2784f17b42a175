// Support code of the driver around the real Rust library: rows, dumps, streams and storages.
use flatdata::{ExternalVector, RawData, ResourceStorage, ResourceStorageError, StorageHandle, Struct, Vector};
use std::io;

pub fn crc(mut c: u32, data: &[u8]) -> u32 {
    static mut T: [u32; 256] = [0; 256];
    let t = unsafe { &mut *std::ptr::addr_of_mut!(T) };
    if t[1] == 0 {
        for i in 0..256u32 {
            let mut x = i;
            for _ in 0..8 {
                x = if x & 1 != 0 { 0xEDB88320 ^ (x >> 1) } else { x >> 1 };
            }
            t[i as usize] = x;
        }
    }
    c = !c;
    for b in data {
        c = t[((c ^ *b as u32) & 255) as usize] ^ (c >> 8);
    }
    !c
}

/// fields of a structure as 64 bit numbers
pub trait Row {
    fn setf(&mut self, f: usize, v: u64);
    /// as a reader sees it: range fields add the pair
    fn get(&self, o: &mut Vec<u64>);
    /// own values only
    fn getm(&self, o: &mut Vec<u64>);
    fn fill(&mut self, _o: &Self)
    where
        Self: Sized;
    fn set(&mut self, v: &[u64]) {
        for (i, x) in v.iter().enumerate() {
            self.setf(i, *x);
        }
    }
}

pub fn num(s: &str) -> u64 {
    if s.starts_with('-') {
        s.parse::<i64>().unwrap() as u64
    } else {
        s.parse().unwrap_or(0)
    }
}

pub fn row(s: &str) -> Vec<u64> {
    s.split(',').map(num).collect()
}

pub fn rows(s: &str) -> Vec<Vec<u64>> {
    if s.is_empty() || s == "-" {
        return vec![];
    }
    let (n, s) = match s.find('*') {
        Some(p) => (num(&s[..p]) as usize, &s[p + 1..]),
        None => (1, s),
    };
    let one: Vec<Vec<u64>> = s.split(';').map(row).collect();
    let mut o = vec![];
    for _ in 0..n {
        o.extend(one.iter().cloned());
    }
    o
}

pub fn raw(s: &str) -> Vec<u8> {
    if let Some(h) = s.strip_prefix('x') {
        return (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    }
    if let Some(n) = s.strip_prefix('z') {
        return (0..num(n) as usize).map(|i| ((i * 31 + (i >> 8)) & 255) as u8).collect();
    }
    vec![]
}

pub fn row_text(r: &[u64]) -> String {
    r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn le(r: &[u64], o: &mut Vec<u8>) {
    for x in r {
        o.extend_from_slice(&x.to_le_bytes());
    }
}

pub fn dump_view<T: Row>(v: &[T], stride: usize, at: usize) -> String {
    let mut c = 0;
    let mut text = String::new();
    let mut r = vec![];
    let mut b = vec![];
    for (i, x) in v.iter().enumerate() {
        if i % stride != at {
            continue;
        }
        r.clear();
        b.clear();
        x.get(&mut r);
        le(&r, &mut b);
        c = crc(c, &b);
        if v.len() <= 3 && stride == 1 {
            text += " ";
            text += &row_text(&r);
        }
    }
    format!("vec {} {}{}", v.len(), c, text)
}

pub fn dump_instance<T: Row>(v: &T, _stride: usize, at: usize) -> String {
    if at != 0 {
        return "skipped".into();
    }
    let mut r = vec![];
    v.get(&mut r);
    format!("inst {}", row_text(&r))
}

pub fn dump_raw(v: RawData, stride: usize, at: usize) -> String {
    let b: Vec<u8> = v.iter().cloned().skip(at).step_by(stride).collect();
    format!("raw {} {}", v.len(), crc(0, &b))
}

/// buckets as (type, row) lists
pub struct MultiDump {
    n: usize,
    c: u32,
}
impl MultiDump {
    pub fn new() -> Self {
        MultiDump { n: 0, c: 0 }
    }
    pub fn bucket(&mut self, els: &[(u64, Vec<u64>)]) {
        let mut body = vec![];
        for (t, r) in els {
            le(&[*t], &mut body);
            le(r, &mut body);
        }
        let mut h = vec![];
        le(&[els.len() as u64, crc(0, &body) as u64], &mut h);
        self.c = crc(self.c, &h);
        self.n += 1;
    }
    pub fn text(self, total: usize) -> String {
        format!("mv {} {}", total, self.c)
    }
}

pub fn error_text(e: &ResourceStorageError) -> String {
    match e {
        ResourceStorageError::Io(e, _) if e.kind() == io::ErrorKind::AlreadyExists => "exists".into(),
        ResourceStorageError::Io(e, n) => format!("io {:?} {}", e.kind(), n),
        ResourceStorageError::Utf8Error(_) => "utf8".into(),
        ResourceStorageError::MissingSchema(_) => "missing-schema".into(),
        ResourceStorageError::MissingData => "missing-data".into(),
        ResourceStorageError::WrongSignature { .. } => "wrong-signature".into(),
        ResourceStorageError::UnexpectedDataSize => "unexpected-size".into(),
        ResourceStorageError::TooBig { .. } => "too-big".into(),
        ResourceStorageError::Missing => "missing".into(),
        _ => "other".into(),
    }
}

pub trait Stream {
    fn grow(&mut self) -> io::Result<()> {
        panic!("driver: not a vector")
    }
    fn bucket(&mut self) -> io::Result<()> {
        panic!("driver: not a multivector")
    }
    fn add(&mut self, _ti: usize) -> bool {
        panic!("driver: not a multivector")
    }
    fn cur(&mut self) -> Option<&mut dyn Row>;
    fn drop_cur(&mut self);
    fn len(&self) -> usize;
    /// None: it was closed before
    fn close(&mut self) -> Option<Result<String, ResourceStorageError>>;
}

pub struct VecStream<T: Struct + Row + 'static> {
    pub v: Option<ExternalVector<'static, T>>,
    pub cur: *mut T,
    pub n: usize,
}
impl<T: Struct + Row + 'static> VecStream<T> {
    pub fn make(v: ExternalVector<'static, T>) -> Box<dyn Stream> {
        Box::new(VecStream { v: Some(v), cur: std::ptr::null_mut(), n: 0 })
    }
}
impl<T: Struct + Row + 'static> Stream for VecStream<T> {
    fn grow(&mut self) -> io::Result<()> {
        self.cur = std::ptr::null_mut();
        let p: *mut T = self.v.as_mut().expect("driver: closed").grow()?;
        self.cur = p;
        Ok(())
    }
    fn cur(&mut self) -> Option<&mut dyn Row> {
        if self.cur.is_null() {
            None
        } else {
            Some(unsafe { &mut *self.cur })
        }
    }
    fn drop_cur(&mut self) {
        self.cur = std::ptr::null_mut();
    }
    fn len(&self) -> usize {
        self.v.as_ref().map(|v| v.len()).unwrap_or(self.n)
    }
    fn close(&mut self) -> Option<Result<String, ResourceStorageError>> {
        self.cur = std::ptr::null_mut();
        let v = self.v.take()?;
        self.n = v.len();
        Some(v.close().map(|x| dump_view(x, 1, 0)))
    }
}

/// vectors and instances edited in memory
pub trait Edit {
    fn vector(&mut self, what: char, n: usize) -> bool;
    fn at(&mut self, i: usize, how: usize) -> bool;
    fn cur(&mut self) -> Option<&mut dyn Row>;
    fn len(&self) -> usize;
    fn dump(&self) -> String;
    fn copy(&self) -> Box<dyn Edit>;
    fn fill(&mut self, to: usize, from: usize) -> bool;
    fn any(&self) -> &dyn std::any::Any;
}

pub fn at_plain<T: Struct + flatdata::NoOverlap>(v: &mut Vector<T>, i: usize, how: usize) -> &mut T {
    match how {
        1 => v.iter_mut().next().unwrap(),
        2 => v.last_mut().unwrap(),
        _ => &mut v[i],
    }
}
pub fn at_range<T: Struct + flatdata::Overlap>(v: &mut Vector<T>, i: usize, how: usize) -> &mut T {
    let n = v.len();
    match how {
        1 => &mut v[0],
        2 => &mut v[n - 1],
        _ => &mut v[i],
    }
}

pub struct VecEdit<T: Struct + Row + 'static> {
    pub v: Vector<T>,
    pub cur: Option<usize>,
    pub at: fn(&mut Vector<T>, usize, usize) -> &mut T,
}
impl<T: Struct + Row + 'static> VecEdit<T> {
    pub fn make(at: fn(&mut Vector<T>, usize, usize) -> &mut T) -> Box<dyn Edit> {
        Box::new(VecEdit { v: Vector::<T>::default(), cur: None, at })
    }
}
impl<T: Struct + Row + 'static> Edit for VecEdit<T> {
    fn vector(&mut self, what: char, n: usize) -> bool {
        self.cur = None;
        match what {
            'g' => {
                let p: *const T = self.v.grow();
                self.cur = Some(self.v.len() - 1);
                assert!(p == &self.v[self.v.len() - 1] as *const T, "driver: grow returns another element");
            }
            'v' => self.v.reserve(n),
            'c' => self.v.clear(),
            _ => self.v = Vector::with_len(n),
        }
        true
    }
    fn at(&mut self, i: usize, how: usize) -> bool {
        if i >= self.v.len() {
            return false;
        }
        let base = &self.v[0] as *const T as usize;
        let p: *const T = (self.at)(&mut self.v, i, how);
        self.cur = Some((p as usize - base) / std::mem::size_of::<T>());
        true
    }
    fn cur(&mut self) -> Option<&mut dyn Row> {
        match self.cur {
            None => None,
            Some(i) => Some((self.at)(&mut self.v, i, 0)),
        }
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn dump(&self) -> String {
        dump_view(self.v.as_view(), 1, 0)
    }
    fn copy(&self) -> Box<dyn Edit> {
        let mut v = Vector::with_len(self.v.len());
        for i in 0..v.len() {
            (self.at)(&mut v, i, 0).fill(&self.v[i]);
        }
        Box::new(VecEdit { cur: if v.len() > 0 { Some(0) } else { None }, v, at: self.at })
    }
    fn fill(&mut self, to: usize, from: usize) -> bool {
        if to >= self.v.len() || from >= self.v.len() || to == from {
            return false;
        }
        let f: *const T = &self.v[from];
        (self.at)(&mut self.v, to, 0).fill(unsafe { &*f });
        true
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

pub struct InstEdit<T> {
    pub v: T,
}
impl<T: Row + Default + Clone + 'static> InstEdit<T> {
    pub fn make() -> Box<dyn Edit> {
        Box::new(InstEdit { v: T::default() })
    }
}
impl<T: Row + Default + Clone + 'static> Edit for InstEdit<T> {
    fn vector(&mut self, _: char, _: usize) -> bool {
        false
    }
    fn at(&mut self, i: usize, _: usize) -> bool {
        i == 0
    }
    fn cur(&mut self) -> Option<&mut dyn Row> {
        Some(&mut self.v)
    }
    fn len(&self) -> usize {
        1
    }
    fn dump(&self) -> String {
        dump_instance(&self.v, 1, 0)
    }
    fn copy(&self) -> Box<dyn Edit> {
        Box::new(InstEdit { v: self.v.clone() })
    }
    fn fill(&mut self, _: usize, _: usize) -> bool {
        let c = self.v.clone();
        self.v.fill(&c);
        true
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

/// glue of one multivector resource
#[macro_export]
macro_rules! multi_stream {
    ($St:ident, $M:ty, $B:ty, $R:ident, [$($R2:tt)*], $(($ti:expr, $variant:ident, $add:ident, $T:ty)),*) => {
        pub struct $St {
            mv: Option<flatdata::MultiVector<'static, $M>>,
            item: Option<$B>,
            cur: Option<*mut dyn Row>,
            n: usize,
        }
        impl $St {
            pub fn make(v: flatdata::MultiVector<'static, $M>) -> Box<dyn Stream> {
                Box::new($St { mv: Some(v), item: None, cur: None, n: 0 })
            }
            pub fn view(v: &flatdata::MultiArrayView<$M>) -> Box<dyn View> {
                let v: flatdata::MultiArrayView<'static, $M> = unsafe { std::mem::transmute(v.clone()) };
                Box::new(MultiV::<$M> { v, conv: Self::conv })
            }
            pub fn conv(e: <$M as flatdata::VariadicStruct<'static>>::Item) -> (u64, Vec<u64>) {
                use $($R2)*::$R as Ref;
                #[allow(unused_mut)]
                let mut r = vec![];
                let t: u64 = match e {
                    $( Ref::$variant(x) => { x.get(&mut r); $ti } ),*
                };
                (t, r)
            }
            pub fn dump(v: &flatdata::MultiArrayView<$M>, stride: usize, at: usize) -> String {
                use $($R2)*::$R as Ref;
                let mut d = MultiDump::new();
                for (i, b) in v.iter().enumerate() {
                    if i % stride != at {
                        continue;
                    }
                    let mut els = vec![];
                    for e in b {
                        #[allow(unused_mut)]
                        let mut r = vec![];
                        let t: u64 = match e {
                            $( Ref::$variant(x) => { x.get(&mut r); $ti } ),*
                        };
                        els.push((t, r));
                    }
                    d.bucket(&els);
                }
                let n = v.len();
                d.text(n)
            }
        }
        impl Stream for $St {
            fn bucket(&mut self) -> io::Result<()> {
                self.cur = None;
                self.item = None;
                let mv = self.mv.as_mut().expect("driver: closed");
                let mv: &'static mut flatdata::MultiVector<'static, $M> = unsafe { std::mem::transmute(mv) };
                self.item = Some(mv.grow()?);
                self.n += 1;
                Ok(())
            }
            fn add(&mut self, ti: usize) -> bool {
                self.cur = None;
                let item = match self.item.as_mut() { Some(i) => i, None => return false };
                match ti {
                    $( $ti => { let p: &mut $T = item.$add(); self.cur = Some(unsafe { std::mem::transmute::<&mut dyn Row, *mut dyn Row>(p) }); } )*
                    _ => panic!("driver: type"),
                }
                true
            }
            fn cur(&mut self) -> Option<&mut dyn Row> {
                self.cur.map(|p| unsafe { &mut *p })
            }
            fn drop_cur(&mut self) {
                self.cur = None;
            }
            fn len(&self) -> usize {
                self.n
            }
            fn close(&mut self) -> Option<Result<String, flatdata::ResourceStorageError>> {
                self.cur = None;
                self.item = None;
                let mv = self.mv.take()?;
                Some(mv.close().map(|v| Self::dump(&v, 1, 0)))
            }
        }
    };
}

pub enum Started {
    Stream(Box<dyn Stream>),
    Failed(io::Error),
}

pub trait Builder {
    fn set(&self, res: usize, v: &str) -> io::Result<()>;
    fn start(&'static self, res: usize) -> io::Result<Box<dyn Stream>>;
    fn sub(&self, res: usize) -> Result<&'static dyn Builder, ResourceStorageError>;
    /// a vector or instance in memory, of the type of the resource
    fn edit(&self, res: usize) -> Box<dyn Edit>;
    fn set_edit(&self, res: usize, e: &dyn Edit) -> io::Result<()>;
}

pub trait Arch {
    fn dump(&self, o: &mut String, stride: usize, at: usize);
    fn debug(&self) -> String;
    /// None: absent
    fn keep(&self, res: usize) -> Option<Box<dyn View>>;
    fn sub(&self, res: usize) -> Option<Box<dyn Arch>>;
    fn copy(&self) -> Box<dyn Arch>;
}

pub struct SchemaOps {
    pub name: &'static str,
    pub builder: fn(usize, StorageHandle) -> Result<&'static dyn Builder, ResourceStorageError>,
    pub archive: fn(usize, StorageHandle) -> Result<Box<dyn Arch>, ResourceStorageError>,
}

/// a storage handle as seen through the driver
pub fn handle<S: ResourceStorage + Send + Sync + 'static>(s: std::sync::Arc<S>) -> StorageHandle {
    s
}

// ---------------------------------------------------------------- looking at open archives
/// makes what an archive lends live for as long as the driver says
pub unsafe fn keep<T: ?Sized>(x: &T) -> &'static T {
    &*(x as *const T)
}

/// something an open archive shows
pub trait View {
    fn derive(&self, how: &str, p: usize, q: usize) -> Option<Box<dyn View>>;
    fn look(&self, how: &str, p: usize, q: usize) -> String;
    fn cursor(&self, _how: &str, _p: usize) -> Option<Box<dyn Cur>> {
        None
    }
}

pub trait Cur {
    fn step(&mut self, how: &str, p: usize) -> String;
    fn copy(&self) -> Box<dyn Cur>;
}

fn one<T: Row>(x: &T) -> String {
    let mut r = vec![];
    x.get(&mut r);
    row_text(&r)
}

pub struct SliceView<T: 'static>(pub &'static [T]);
impl<T: Row + Struct + PartialEq + 'static> View for SliceView<T> {
    fn derive(&self, how: &str, p: usize, q: usize) -> Option<Box<dyn View>> {
        Some(Box::new(SliceView(match how {
            "sl" => &self.0[p..q],
            "sf" => &self.0[p..],
            "st" => &self.0[..p],
            _ => self.0,
        })))
    }
    fn look(&self, how: &str, p: usize, q: usize) -> String {
        use flatdata::SliceExt;
        match how {
            "n" => format!("n {} {}", self.0.len(), self.0.is_empty()),
            "by" => {
                let b = self.0.as_bytes();
                let back = <&[T]>::from_bytes(b);
                let same = match back { Ok(x) => x.len() == self.0.len() && x.as_ptr() == self.0.as_ptr(), Err(_) => false };
                format!("bytes {} {} {}", b.len(), crc(0, b), same)
            }
            "all" => dump_view(self.0, 1, 0),
            "at" => format!("el {}", one(&self.0[p])),
            "eq" => format!("eq {}{}", (self.0[p] == self.0[q]) as u8, (self.0[p] != self.0[q]) as u8),
            "dbg" => format!("dbg {:?}", self.0[p]),
            _ => format!("dbg {:?}", self.0),
        }
    }
}

pub struct InstView<T: 'static>(pub &'static T);
impl<T: Row + Struct + PartialEq + 'static> View for InstView<T> {
    fn derive(&self, _how: &str, _p: usize, _q: usize) -> Option<Box<dyn View>> {
        Some(Box::new(InstView(self.0)))
    }
    fn look(&self, how: &str, _p: usize, _q: usize) -> String {
        match how {
            "dbg" => format!("dbg {:?}", self.0),
            _ => format!("el {}", one(self.0)),
        }
    }
}

pub struct RawView(pub RawData<'static>);
impl View for RawView {
    fn derive(&self, how: &str, p: usize, q: usize) -> Option<Box<dyn View>> {
        Some(Box::new(RawView(match how {
            "sl" => RawData::new(&self.0.as_bytes()[p..q]),
            _ => self.0.clone(),
        })))
    }
    fn look(&self, how: &str, p: usize, q: usize) -> String {
        let x = &self.0;
        match how {
            "n" => format!("n {} {}", x.len(), x.is_empty()),
            "all" => format!("bytes {}", crc(0, x)),
            "by" => format!("bytes {}", crc(0, &x.as_bytes()[p..q])),
            "sr" => format!("bytes {} {}", x.substring_raw(p).len(), crc(0, x.substring_raw(p))),
            "su" => match x.substring(p) {
                Ok(s) => format!("str {} {}", s.len(), crc(0, s.as_bytes())),
                Err(e) => format!("utf8 {}", e.valid_up_to()),
            },
            _ => {
                let s = x.substring_lossy(p);
                format!("str {} {}", s.len(), crc(0, s.as_bytes()))
            }
        }
    }
}

type ItemOf<M> = <M as flatdata::VariadicStruct<'static>>::Item;
pub struct MultiV<M: flatdata::VariadicRefFactory + 'static> {
    pub v: flatdata::MultiArrayView<'static, M>,
    pub conv: fn(ItemOf<M>) -> (u64, Vec<u64>),
}
fn bucket_text<E>(it: impl Iterator<Item = E>, conv: fn(E) -> (u64, Vec<u64>)) -> String {
    let mut o = String::from("bucket");
    for e in it {
        let (t, r) = conv(e);
        o += &format!(" {}:{}", t, row_text(&r));
    }
    o
}
impl<M: flatdata::VariadicRefFactory + 'static> View for MultiV<M> {
    fn derive(&self, how: &str, p: usize, q: usize) -> Option<Box<dyn View>> {
        let v = match how {
            "sl" => self.v.slice(p..q),
            "sf" => self.v.slice(p..),
            "st" => self.v.slice(..p),
            "si" => self.v.slice(..=p),
            "sa" => self.v.slice(..),
            _ => self.v.clone(),
        };
        Some(Box::new(MultiV { v, conv: self.conv }))
    }
    fn look(&self, how: &str, p: usize, q: usize) -> String {
        let v = &self.v;
        match how {
            "n" => format!("n {} {} {}", v.len(), v.is_empty(), v.iter().len()),
            "all" | "rev" | "in" => {
                let mut d = MultiDump::new();
                let all: Vec<_> = match how {
                    "all" => v.iter().collect(),
                    "rev" => v.iter().rev().collect(),
                    _ => v.clone().into_iter().collect(),
                };
                for b in all {
                    d.bucket(&b.map(self.conv).collect::<Vec<_>>());
                }
                d.text(v.into_iter().count())
            }
            "at" => bucket_text(v.at(p), self.conv),
            "cn" => format!("count {}", v.at(p).count()),
            "eq" => format!("eq {}{}", v.at(p).eq(v.at(q)) as u8, v.at(p).ne(v.at(q)) as u8),
            "ad" => format!("dbg {:?}", v.at(p)),
            "id" => format!("dbg {:?}", v.iter()),
            _ => format!("dbg {:?}", v),
        }
    }
    fn cursor(&self, how: &str, p: usize) -> Option<Box<dyn Cur>> {
        if how == "it" {
            return Some(Box::new(MultiCur { it: self.v.iter(), conv: self.conv }));
        }
        Some(Box::new(ItemCur { it: self.v.at(p), conv: self.conv }))
    }
}

struct MultiCur<I, E> {
    it: I,
    conv: fn(E) -> (u64, Vec<u64>),
}
impl<E: 'static, J: Iterator<Item = E>, I: DoubleEndedIterator<Item = J> + ExactSizeIterator + Clone + std::fmt::Debug + 'static> Cur for MultiCur<I, E> {
    fn step(&mut self, how: &str, p: usize) -> String {
        let x = match how {
            "n" => self.it.next(),
            "b" => self.it.next_back(),
            "k" => self.it.nth(p),
            "kb" => self.it.nth_back(p),
            "l" => return format!("len {}", self.it.len()),
            _ => return format!("dbg {:?}", self.it),
        };
        match x {
            None => "end".into(),
            Some(b) => bucket_text(b, self.conv),
        }
    }
    fn copy(&self) -> Box<dyn Cur> {
        Box::new(MultiCur { it: self.it.clone(), conv: self.conv })
    }
}

struct ItemCur<I, E> {
    it: I,
    conv: fn(E) -> (u64, Vec<u64>),
}
impl<E: 'static, I: Iterator<Item = E> + Clone + std::fmt::Debug + 'static> Cur for ItemCur<I, E> {
    fn step(&mut self, how: &str, _p: usize) -> String {
        match how {
            "n" => match self.it.next() {
                None => "end".into(),
                Some(e) => {
                    let (t, r) = (self.conv)(e);
                    format!("bucket {}:{}", t, row_text(&r))
                }
            },
            "l" => format!("len {}", self.it.clone().count()),
            _ => format!("dbg {:?}", self.it),
        }
    }
    fn copy(&self) -> Box<dyn Cur> {
        Box::new(ItemCur { it: self.it.clone(), conv: self.conv })
    }
}
