// Included by both harness crates: values of the code under test seen through the model's eyes.
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use mc::explore::{guard, Abandon};
use mc::ty::{Ty, M};
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, PartialEq, Debug)]
pub enum Er {
    Type,
    Utf8,
    BinLen,
    CollLen,
    Missing(String),
    Dup,
    Number,
    Reserve,
    Stop,
    NoValue,
    Io(ErrorKind),
    Other(String),
    Panic(String),
}
impl From<ThriftError> for Er {
    fn from(e: ThriftError) -> Er {
        match e {
            ThriftError::InvalidType => Er::Type,
            ThriftError::InvalidString => Er::Utf8,
            ThriftError::InvalidBinaryLen(..) => Er::BinLen,
            ThriftError::InvalidCollectionLen => Er::CollLen,
            ThriftError::MissingField(n) => Er::Missing(n.to_string()),
            ThriftError::DuplicateField => Er::Dup,
            ThriftError::InvalidNumber => Er::Number,
            ThriftError::ReserveError => Er::Reserve,
            ThriftError::MissingStop => Er::Stop,
            ThriftError::MissingValue => Er::NoValue,
            ThriftError::IO(k) => Er::Io(k),
            #[allow(unreachable_patterns)]
            other => Er::Other(format!("{other:?}")),
        }
    }
}
pub const EOF: Er = Er::Io(ErrorKind::UnexpectedEof);

pub trait Subject: Sized {
    fn from_m(m: &M) -> Self;
    fn to_m(&self) -> M;
}
/// A model value as whatever the context needs.
pub fn conv<T: Subject>(m: &M) -> T {
    T::from_m(m)
}
/// A model value as a value of the same type as another.
pub fn like<T: Subject>(_: &T, m: &M) -> T {
    T::from_m(m)
}
#[cold]
pub fn cannot<T>(m: &M) -> T {
    panic!("MODEL: a {} cannot hold the value {m:?} its definition allows", std::any::type_name::<T>())
}
macro_rules! scalar {
    ($($t:ty: $v:ident),*) => {$(
        impl Subject for $t {
            fn from_m(m: &M) -> Self { if let M::$v(x) = m { *x } else { cannot(m) } }
            fn to_m(&self) -> M { M::$v(*self) }
        }
    )*};
}
scalar!(bool: Bool, i8: I8, i16: I16, i32: I32, i64: I64);
impl Subject for f64 {
    fn from_m(m: &M) -> Self {
        if let M::F64(x) = m {
            f64::from_bits(*x)
        } else {
            cannot(m)
        }
    }
    fn to_m(&self) -> M {
        M::F64(self.to_bits())
    }
}
impl Subject for Vec<u8> {
    fn from_m(m: &M) -> Self {
        if let M::Bin(x) = m {
            x.clone()
        } else {
            cannot(m)
        }
    }
    fn to_m(&self) -> M {
        M::Bin(self.clone())
    }
}
fn st<T>(m: &M) -> &str {
    match m {
        // Safety: only called with model text, which is valid
        M::Str(x) => std::str::from_utf8(x).expect("model text"),
        _ => cannot::<&str>(m),
    }
}
macro_rules! strings {
    ($($t:ty),*) => {$(
        impl Subject for $t {
            fn from_m(m: &M) -> Self { st::<Self>(m).into() }
            fn to_m(&self) -> M { M::Str(self.as_bytes().to_vec()) }
        }
    )*};
}
strings!(String, Box<str>, Rc<str>, Arc<str>);
impl Subject for Cow<'_, str> {
    fn from_m(m: &M) -> Self {
        Cow::Owned(st::<Self>(m).to_string())
    }
    fn to_m(&self) -> M {
        M::Str(self.as_bytes().to_vec())
    }
}
impl Subject for Cow<'_, [u8]> {
    fn from_m(m: &M) -> Self {
        Cow::Owned(Vec::<u8>::from_m(m))
    }
    fn to_m(&self) -> M {
        M::Bin(self.to_vec())
    }
}
impl<P: Subject> Subject for Vec<P> {
    fn from_m(m: &M) -> Self {
        if let M::List(x) = m {
            x.iter().map(P::from_m).collect()
        } else {
            cannot(m)
        }
    }
    fn to_m(&self) -> M {
        M::List(self.iter().map(P::to_m).collect())
    }
}
impl<P: Subject> Subject for Option<P> {
    fn from_m(m: &M) -> Self {
        if *m == M::None {
            None
        } else {
            Some(P::from_m(m))
        }
    }
    fn to_m(&self) -> M {
        self.as_ref().map_or(M::None, P::to_m)
    }
}
macro_rules! wrappers {
    ($($w:ident),*) => {$(
        impl<P: Subject> Subject for $w<P> {
            fn from_m(m: &M) -> Self { $w::new(P::from_m(m)) }
            fn to_m(&self) -> M { P::to_m(self) }
        }
    )*};
}
wrappers!(Box, Rc, Arc);

/// A value filled twice, and looked at in between.
pub struct Twice {
    pub first: Result<(), Er>,
    pub left: M,
    pub written: Result<Vec<u8>, Er>,
    pub second: Result<(), Er>,
    pub after: M,
}
fn twice<'i, T: Subject + CompactThriftProtocol<'i>>(m: &M, t: Option<u8>, a: &'i [u8], b: &'i [u8]) -> Twice {
    let mut v = T::from_m(m);
    let mut i = CompactThriftInputSlice::new(a);
    let first = match t {
        None => v.fill_thrift(&mut i),
        Some(t) => v.fill_thrift_field(&mut i, t),
    };
    let left = v.to_m();
    let mut w: Vec<u8> = vec![];
    let written = v.write_thrift(&mut w);
    let second = v.fill_thrift(&mut CompactThriftInputSlice::new(b));
    Twice { first: e(first), left, written: e(written).map(|_| w), second: e(second), after: v.to_m() }
}

/// Two values next to each other.
pub struct Couple {
    pub eq: [bool; 2],
    pub ne: [bool; 2],
    /// a clone of the first, and the second after the first was cloned into it
    pub clones: [M; 2],
    /// the first, after its clone was used up
    pub left: M,
    pub shown: [[String; 2]; 2],
}
fn pair<T: Subject + PartialEq + Clone + std::fmt::Debug>(m: &M, n: &M) -> Couple {
    #![allow(clippy::nonminimal_bool)]
    let (a, b) = (T::from_m(m), T::from_m(n));
    let eq = [a == b, b == a];
    let ne = [a != b, b != a];
    let shown = [&a, &b].map(|x| [format!("{x:?}"), format!("{x:#?}")]);
    let clone = a.clone();
    let c = clone.to_m();
    drop(clone);
    let left = a.to_m();
    let mut b = b;
    b.clone_from(&a);
    Couple { eq, ne, clones: [c, b.to_m()], left, shown }
}

pub struct SliceRead {
    pub result: Result<M, Er>,
    pub consumed: usize,
    /// the rest is a suffix of the input
    pub suffix: bool,
}

#[derive(Clone)]
pub struct Vt {
    pub name: String,
    pub ty: Ty,
    pub group: &'static str,
    /// the type refuses to be filled when it already holds a value
    pub option: bool,
    #[allow(dead_code)]
    pub field_type: u8,
    f_read_slice: fn(&[u8]) -> SliceRead,
    f_read_stream: fn(&mut dyn Read) -> Result<M, Er>,
    f_write: fn(&M, &mut dyn Write) -> Result<(), Er>,
    f_fill: fn(&M, &[u8]) -> (Result<(), Er>, M, usize),
    f_fill_field: fn(&M, u8, &[u8]) -> (Result<(), Er>, M, usize),
    f_twice: fn(&M, Option<u8>, &[u8], &[u8]) -> Twice,
    f_write_field: fn(&M, i16, &mut i16, &mut dyn Write) -> Result<(), Er>,
    f_default: fn() -> M,
    f_pair: fn(&M, &M) -> Couple,
}

fn rest(input: &CompactThriftInputSlice, whole: &[u8]) -> (usize, bool) {
    let r = input.as_slice();
    let end = whole.as_ptr() as usize + whole.len();
    let ok = r.len() <= whole.len() && (r.as_ptr() as usize + r.len() == end || r.is_empty());
    (whole.len().wrapping_sub(r.len()), ok)
}

fn e<T>(r: Result<T, ThriftError>) -> Result<T, Er> {
    r.map_err(Er::from)
}

pub fn vt<T>(name: impl Into<String>, ty: Ty, group: &'static str) -> Vt
where
    T: Subject + Default + PartialEq + Clone + std::fmt::Debug + for<'i> CompactThriftProtocol<'i>,
{
    Vt {
        f_pair: pair::<T>,
        name: name.into(),
        ty,
        group,
        option: false,
        field_type: <T as CompactThriftProtocol>::FIELD_TYPE,
        f_read_slice: |b| {
            let mut i = CompactThriftInputSlice::new(b);
            let r = T::read_thrift(&mut i);
            let (consumed, suffix) = rest(&i, b);
            SliceRead { result: e(r).map(|v| v.to_m()), consumed, suffix }
        },
        f_read_stream: |mut r| e(T::read_thrift(&mut r)).map(|v| v.to_m()),
        f_write: |m, mut w| e(T::from_m(m).write_thrift(&mut w)),
        f_fill: |m, b| {
            let mut v = T::from_m(m);
            let mut i = CompactThriftInputSlice::new(b);
            let r = v.fill_thrift(&mut i);
            (e(r), v.to_m(), rest(&i, b).0)
        },
        f_fill_field: |m, t, b| {
            let mut v = T::from_m(m);
            let mut i = CompactThriftInputSlice::new(b);
            let r = v.fill_thrift_field(&mut i, t);
            (e(r), v.to_m(), rest(&i, b).0)
        },
        f_twice: |m, t, a, b| twice::<T>(m, t, a, b),
        f_write_field: |m, id, last, mut w| e(T::from_m(m).write_thrift_field(&mut w, id, last)),
        f_default: || T::default().to_m(),
    }
}

macro_rules! cow_vt {
    ($f:ident, $t:ty) => {
        #[allow(dead_code)]
        pub fn $f(name: &str, ty: Ty, group: &'static str) -> Vt {
            fn rd<'a>(i: &mut CompactThriftInputSlice<'a>) -> Result<Cow<'a, $t>, ThriftError>
            where
                Cow<'a, $t>: CompactThriftProtocol<'a>,
            {
                let mut v: Cow<'a, $t> = Cow::Borrowed(Default::default());
                v.fill_thrift(i)?;
                Ok(v)
            }
            fn rf<'a>(m: &M, t: Option<u8>, b: &'a [u8]) -> (Result<(), Er>, M, usize) {
                let mut v: Cow<'a, $t> = conv(m);
                let mut i = CompactThriftInputSlice::new(b);
                let r = match t {
                    None => v.fill_thrift(&mut i),
                    Some(t) => v.fill_thrift_field(&mut i, t),
                };
                (e(r), v.to_m(), rest(&i, b).0)
            }
            Vt {
                name: name.into(),
                ty,
                group,
                option: false,
                field_type: <Cow<'static, $t> as CompactThriftProtocol>::FIELD_TYPE,
                f_read_slice: |b| {
                    let mut i = CompactThriftInputSlice::new(b);
                    let r = rd(&mut i);
                    let (consumed, mut suffix) = rest(&i, b);
                    if let Ok(c) = &r {
                        // borrowed text is the payload itself, directly before the rest
                        let p = c.as_ptr() as usize;
                        let borrowed = matches!(c, Cow::Borrowed(_));
                        if borrowed && !c.is_empty() {
                            suffix &= p >= b.as_ptr() as usize && p + c.len() == b.as_ptr() as usize + consumed;
                        }
                    }
                    SliceRead { result: e(r).map(|v| v.to_m()), consumed, suffix }
                },
                f_read_stream: |mut r| {
                    let mut v: Cow<'static, $t> = Cow::Borrowed(Default::default());
                    e(v.fill_thrift(&mut r)).map(|_| v.to_m())
                },
                f_write: |m, mut w| {
                    let v: Cow<'static, $t> = conv(m);
                    e(v.write_thrift(&mut w))
                },
                f_fill: |m, b| rf(m, None, b),
                f_fill_field: |m, t, b| rf(m, Some(t), b),
                f_twice: |m, t, a, b| twice::<Cow<$t>>(m, t, a, b),
                f_write_field: |m, id, last, mut w| {
                    let v: Cow<'static, $t> = conv(m);
                    e(v.write_thrift_field(&mut w, id, last))
                },
                f_pair: pair::<Cow<'static, $t>>,
                f_default: || Cow::<'static, $t>::Borrowed(Default::default()).to_m(),
            }
        }
    };
}
cow_vt!(vt_cow_str, str);
cow_vt!(vt_cow_bytes, [u8]);

thread_local! {
    static GUARDED: RefCell<mc::sysx::Guarded> = RefCell::new(mc::sysx::Guarded::new(6000));
}
/// Runs f on a copy of the bytes whose end (or start) touches an inaccessible page.
pub fn fenced<R>(b: &[u8], at_end: bool, f: impl FnOnce(&[u8]) -> R) -> R {
    if b.len() > 6000 * 4096 {
        return f(b);
    }
    GUARDED.with(|g| {
        let mut g = g.borrow_mut();
        if at_end {
            f(g.at_end(b))
        } else {
            f(g.at_start(b))
        }
    })
}
fn caught<T>(f: impl FnOnce() -> Result<T, Er>) -> Result<T, Er> {
    match guard(f) {
        Ok(r) => r,
        Err(m) => Err(Er::Panic(m)),
    }
}

impl Vt {
    pub fn opt(mut self) -> Vt {
        self.option = true;
        self
    }
    pub fn read_slice_raw(&self, b: &[u8]) -> SliceRead {
        match guard(|| (self.f_read_slice)(b)) {
            Ok(r) => r,
            Err(m) => SliceRead { result: Err(Er::Panic(m)), consumed: 0, suffix: true },
        }
    }
    /// Reads from a slice that ends at an inaccessible page.
    pub fn read_slice(&self, b: &[u8]) -> SliceRead {
        fenced(b, true, |b| self.read_slice_raw(b))
    }
    /// Value and number of bytes consumed; Err("...") for anything a slice reader must never do.
    pub fn read(&self, b: &[u8]) -> (Result<M, Er>, usize) {
        let r = self.read_slice(b);
        let res = if r.suffix { r.result } else { Err(Er::Other("the rest is not a suffix of the input".into())) };
        (res, r.consumed)
    }
    pub fn read_stream(&self, r: &mut dyn Read) -> Result<M, Er> {
        caught(|| (self.f_read_stream)(r))
    }
    pub fn read_stream_bytes(&self, b: &[u8]) -> (Result<M, Er>, usize) {
        let mut c: &[u8] = b;
        let r = self.read_stream(&mut c);
        (r, b.len() - c.len())
    }
    pub fn write_to(&self, m: &M, w: &mut dyn Write) -> Result<(), Er> {
        caught(|| (self.f_write)(m, w))
    }
    pub fn write(&self, m: &M) -> Result<Vec<u8>, Er> {
        let mut v: Vec<u8> = vec![];
        self.write_to(m, &mut v)?;
        Ok(v)
    }
    pub fn fill(&self, old: &M, b: &[u8]) -> (Result<(), Er>, M, usize) {
        fenced(b, true, |b| match guard(|| (self.f_fill)(old, b)) {
            Ok(r) => r,
            Err(m) => (Err(Er::Panic(m)), M::None, 0),
        })
    }
    pub fn fill_field(&self, old: &M, t: u8, b: &[u8]) -> (Result<(), Er>, M, usize) {
        fenced(b, true, |b| match guard(|| (self.f_fill_field)(old, t, b)) {
            Ok(r) => r,
            Err(m) => (Err(Er::Panic(m)), M::None, 0),
        })
    }
    #[allow(dead_code)]
    pub fn twice(&self, old: &M, t: Option<u8>, a: &[u8], b: &[u8]) -> Result<Twice, String> {
        guard(|| (self.f_twice)(old, t, a, b))
    }
    #[allow(dead_code)]
    pub fn pair(&self, a: &M, b: &M) -> Result<Couple, String> {
        guard(|| (self.f_pair)(a, b))
    }
    pub fn write_field(&self, m: &M, id: i16, last: &mut i16, w: &mut dyn Write) -> Result<(), Er> {
        caught(|| (self.f_write_field)(m, id, last, w))
    }
    pub fn default(&self) -> Result<M, Er> {
        caught(|| Ok((self.f_default)()))
    }
}

/// Skips a field of the given wire type from a slice: result, bytes consumed, rest is a suffix.
pub fn skip_slice(t: u8, b: &[u8]) -> (Result<(), Er>, usize) {
    fenced(b, true, |b| {
        let r = guard(|| {
            let mut i = CompactThriftInputSlice::new(b);
            let r = i.skip_field(t);
            (e(r), rest(&i, b))
        });
        match r {
            Ok((r, (n, true))) => (r, n),
            Ok((_, (n, false))) => (Err(Er::Other("the rest is not a suffix of the input".into())), n),
            Err(m) => (Err(Er::Panic(m)), 0),
        }
    })
}
pub fn skip_stream(t: u8, b: &[u8]) -> (Result<(), Er>, usize) {
    let mut c: &[u8] = b;
    let r = {
        let d: &mut dyn Read = &mut c;
        caught(|| e(d.skip_field(t)))
    };
    (r, b.len() - c.len())
}
#[allow(dead_code)]
pub fn skip_reader(t: u8, d: &mut dyn Read) -> Result<(), Er> {
    caught(|| e(d.skip_field(t)))
}
#[allow(dead_code)]
pub fn abandoned(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<Abandon>()
}
