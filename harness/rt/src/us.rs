//! R24: value types of the user's own, which implement only the required part of the protocol trait, in every place
//! where a built-in type can be.
#[path = "../../kit.rs"]
mod kit;
mod layouts;
mod own;
#[path = "../../subject.rs"]
#[allow(dead_code)]
mod subject;

use compact_thrift_runtime::{CompactThriftInput, CompactThriftOutput, CompactThriftProtocol, FieldName, ThriftError};
use kit::*;
use mc::cli::Plan;
use mc::explore::{Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{to_w, Def, Field, Ty, M};
use mc::wire;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use subject::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

// ---- the user's own type ----------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Call {
    Fill(u32),
    Write(u32),
}
#[derive(Clone, Debug)]
enum Plot {
    /// before or after it took its bytes
    Fail(bool, ThriftError),
    Panic(bool),
}
thread_local! {
    /// instances alive
    static ALIVE: RefCell<BTreeMap<u32, ()>> = const { RefCell::new(BTreeMap::new()) };
    static NEXT: Cell<u32> = const { Cell::new(0) };
    static TWICE: Cell<bool> = const { Cell::new(false) };
    static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    /// the call of fill or write that does not succeed
    static PLOT: RefCell<Option<(usize, Plot)>> = const { RefCell::new(None) };
    /// how many defaults can be made before one panics
    static DEFAULTS: Cell<usize> = const { Cell::new(usize::MAX) };
}
struct Token(u32);
impl Token {
    fn new() -> Token {
        let n = NEXT.with(|n| n.replace(n.get() + 1));
        ALIVE.with(|a| a.borrow_mut().insert(n, ()));
        Token(n)
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        if ALIVE.with(|a| a.borrow_mut().remove(&self.0)).is_none() {
            TWICE.with(|t| t.set(true));
        }
    }
}
fn begin(plot: Option<(usize, Plot)>) {
    ALIVE.with(|a| a.borrow_mut().clear());
    TWICE.with(|t| t.set(false));
    CALLS.with(|c| c.borrow_mut().clear());
    PLOT.with(|p| *p.borrow_mut() = plot);
    DEFAULTS.with(|d| d.set(usize::MAX));
}
fn called(call: Call) -> Option<Plot> {
    let n = CALLS.with(|c| {
        c.borrow_mut().push(call);
        c.borrow().len() - 1
    });
    PLOT.with(|p| p.borrow().as_ref().filter(|x| x.0 == n).map(|x| x.1.clone()))
}
fn calls() -> Vec<Call> {
    CALLS.with(|c| c.borrow().clone())
}

/// A type with the wire type FT.
pub struct User<const FT: u8> {
    token: Token,
    v: M,
}
fn model<const FT: u8>() -> Ty {
    match FT {
        2 => Ty::Bool,
        3 => Ty::I8,
        4 => Ty::I16,
        5 => Ty::I32,
        6 => Ty::I64,
        7 => Ty::F64,
        8 => Ty::Bin,
        9 => Ty::list(Ty::I8),
        10 => Ty::Set(Box::new(Ty::I8)),
        12 => Ty::Struct(Arc::new(Def { name: "User".into(), fields: vec![Field { id: 3, name: "x".into(), required: true, ty: Ty::I8 }] })),
        _ => unreachable!(),
    }
}
impl<const FT: u8> Default for User<FT> {
    fn default() -> Self {
        let left = DEFAULTS.with(|d| d.replace(d.get().saturating_sub(1)));
        assert!(left > 0, "as planned");
        User { token: Token::new(), v: model::<FT>().default() }
    }
}
impl<const FT: u8> Clone for User<FT> {
    fn clone(&self) -> Self {
        User { token: Token::new(), v: self.v.clone() }
    }
}
impl<const FT: u8> PartialEq for User<FT> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<const FT: u8> std::fmt::Debug for User<FT> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.v.fmt(f)
    }
}
impl<const FT: u8> Subject for User<FT> {
    fn from_m(m: &M) -> Self {
        User { token: Token::new(), v: m.clone() }
    }
    fn to_m(&self) -> M {
        self.v.clone()
    }
}
impl<const FT: u8> User<FT> {
    fn take<'i, T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> {
        self.v = match FT {
            2 => M::Bool(i.read_byte()? == 1),
            3 => M::I8(i.read_byte()? as i8),
            4 => M::I16(i.read_i16()?),
            5 => M::I32(i.read_i32()?),
            6 => M::I64(i.read_i64()?),
            7 => M::F64(i.read_double()?.to_bits()),
            8 => M::Bin(i.read_binary()?.into_owned()),
            9 | 10 => {
                let h = i.read_byte()?;
                let n = if h >> 4 == 15 { i.read_len()? } else { (h >> 4) as usize };
                if h & 15 != 3 {
                    return Err(ThriftError::InvalidType);
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(M::I8(i.read_byte()? as i8));
                }
                M::List(v)
            }
            _ => {
                let mut last = 0;
                let mut x = None;
                loop {
                    let t = i.read_field_header(&mut last)?;
                    if t == 0 {
                        break;
                    }
                    if last == 3 {
                        if t != 3 {
                            return Err(ThriftError::InvalidType);
                        }
                        x = Some(i.read_byte()? as i8);
                    } else {
                        i.skip_field(t)?;
                    }
                }
                M::Struct(vec![M::I8(x.ok_or_else(|| ThriftError::MissingField(FieldName::from("User::x\0")))?)])
            }
        };
        Ok(())
    }
    fn put<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> {
        match &self.v {
            M::Bool(b) => o.write_byte(if *b { 1 } else { 2 }),
            M::I8(v) => o.write_byte(*v as u8),
            M::I16(v) => o.write_i16(*v),
            M::I32(v) => o.write_i32(*v),
            M::I64(v) => o.write_i64(*v),
            M::F64(v) => o.write_double(f64::from_bits(*v)),
            M::Bin(v) => o.write_binary(v),
            M::List(v) => {
                if v.len() < 15 {
                    o.write_byte(3 | (v.len() as u8) << 4)?;
                } else {
                    o.write_byte(0xF3)?;
                    o.write_len(v.len())?;
                }
                for x in v {
                    if let M::I8(x) = x {
                        o.write_byte(*x as u8)?;
                    }
                }
                Ok(())
            }
            M::Struct(v) => {
                o.write_byte(0x33)?;
                if let M::I8(x) = v[0] {
                    o.write_byte(x as u8)?;
                }
                o.write_byte(0)
            }
            _ => unreachable!(),
        }
    }
}
impl<'i, const FT: u8> CompactThriftProtocol<'i> for User<FT> {
    const FIELD_TYPE: u8 = FT;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        let plot = called(Call::Fill(self.token.0));
        match &plot {
            Some(Plot::Fail(false, e)) => return Err(e.clone()),
            Some(Plot::Panic(false)) => panic!("as planned"),
            _ => {}
        }
        self.take(input)?;
        match plot {
            Some(Plot::Fail(_, e)) => Err(e),
            Some(Plot::Panic(_)) => panic!("as planned"),
            None => Ok(()),
        }
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        let plot = called(Call::Write(self.token.0));
        match &plot {
            Some(Plot::Fail(false, e)) => return Err(e.clone()),
            Some(Plot::Panic(false)) => panic!("as planned"),
            _ => {}
        }
        self.put(output)?;
        match plot {
            Some(Plot::Fail(_, e)) => Err(e),
            Some(Plot::Panic(_)) => panic!("as planned"),
            None => Ok(()),
        }
    }
}

/// A user's boolean: like the built-in one it is part of the field's header, so that its field functions are the user's as well.
pub struct Flag {
    token: Token,
    v: bool,
}
impl Default for Flag {
    fn default() -> Self {
        let left = DEFAULTS.with(|d| d.replace(d.get().saturating_sub(1)));
        assert!(left > 0, "as planned");
        Flag { token: Token::new(), v: false }
    }
}
impl Clone for Flag {
    fn clone(&self) -> Self {
        Flag { token: Token::new(), v: self.v }
    }
}
impl PartialEq for Flag {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl std::fmt::Debug for Flag {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.v.fmt(f)
    }
}
impl Subject for Flag {
    fn from_m(m: &M) -> Self {
        let M::Bool(v) = m else { return cannot(m) };
        Flag { token: Token::new(), v: *v }
    }
    fn to_m(&self) -> M {
        M::Bool(self.v)
    }
}
/// A call of the user's function, with what it does in the middle.
fn during(call: Call, does: impl FnOnce() -> Result<(), ThriftError>) -> Result<(), ThriftError> {
    let plot = called(call);
    match &plot {
        Some(Plot::Fail(false, e)) => return Err(e.clone()),
        Some(Plot::Panic(false)) => panic!("as planned"),
        _ => {}
    }
    does()?;
    match plot {
        Some(Plot::Fail(_, e)) => Err(e),
        Some(Plot::Panic(_)) => panic!("as planned"),
        None => Ok(()),
    }
}
impl<'i> CompactThriftProtocol<'i> for Flag {
    const FIELD_TYPE: u8 = 2;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        during(Call::Fill(self.token.0), || self.v.fill_thrift(input))
    }
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
        if !matches!(field_type, 1 | 2) {
            return Err(ThriftError::InvalidType);
        }
        during(Call::Fill(self.token.0), || self.v.fill_thrift_field(input, field_type))
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        during(Call::Write(self.token.0), || self.v.write_thrift(output))
    }
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
        during(Call::Write(self.token.0), || self.v.write_thrift_field(output, field_id, last_field_id))
    }
}

// ---- the places it can be in --------------------------------------------------------------------------------------------

fn st(name: &str, fields: &[(i16, &str, bool, Ty)]) -> Ty {
    Ty::Struct(def(name, fields))
}
fn def(name: &str, fields: &[(i16, &str, bool, Ty)]) -> Arc<Def> {
    Arc::new(Def { name: name.into(), fields: fields.iter().map(|(id, n, required, ty)| Field { id: *id, name: n.to_string(), required: *required, ty: ty.clone() }).collect() })
}

macro_rules! places {
    ($($module:ident: $user:ty = $ft:literal),*) => {$(
        mod $module {
            use super::*;
            pub type U = $user;
            compact_thrift_runtime::thrift! {
                struct Holder {
                    1: required U plain;
                    2: optional U maybe;
                    4: required list<U> many;
                    20: optional Box<U> boxed;
                    19: required Rc<U> shared;
                    21: optional Arc<U> sent;
                    22: optional list<U> some
                }
                struct Pair { 1: required U a; 2: required U b }
                union Either { 1: U one; 2: list<U> several; 17: Box<U> boxed; 3: Arc<U> sent }
                struct Outer { 1: required list<Pair> pairs; 2: optional Either either; 3: required Box<Pair> pair }
            }
            impl Subject for Holder {
                fn from_m(m: &M) -> Self {
                    let M::Struct(f) = m else { return cannot(m) };
                    Holder { plain: conv(&f[0]), maybe: conv(&f[1]), many: conv(&f[2]), boxed: conv(&f[3]), shared: conv(&f[4]), sent: conv(&f[5]), some: conv(&f[6]) }
                }
                fn to_m(&self) -> M {
                    M::Struct(vec![self.plain.to_m(), self.maybe.to_m(), self.many.to_m(), self.boxed.to_m(), self.shared.to_m(), self.sent.to_m(), self.some.to_m()])
                }
            }
            impl Subject for Pair {
                fn from_m(m: &M) -> Self {
                    let M::Struct(f) = m else { return cannot(m) };
                    Pair { a: conv(&f[0]), b: conv(&f[1]) }
                }
                fn to_m(&self) -> M {
                    M::Struct(vec![self.a.to_m(), self.b.to_m()])
                }
            }
            impl Subject for Either {
                fn from_m(m: &M) -> Self {
                    match m {
                        M::Union(0, x) => Either::one(conv(x)),
                        M::Union(1, x) => Either::several(conv(x)),
                        M::Union(2, x) => Either::boxed(conv(x)),
                        M::Union(3, x) => Either::sent(conv(x)),
                        _ => cannot(m),
                    }
                }
                fn to_m(&self) -> M {
                    match self {
                        Either::one(x) => M::Union(0, Box::new(x.to_m())),
                        Either::several(x) => M::Union(1, Box::new(x.to_m())),
                        Either::boxed(x) => M::Union(2, Box::new(x.to_m())),
                        Either::sent(x) => M::Union(3, Box::new(x.to_m())),
                    }
                }
            }
            impl Subject for Outer {
                fn from_m(m: &M) -> Self {
                    let M::Struct(f) = m else { return cannot(m) };
                    Outer { pairs: conv(&f[0]), either: conv(&f[1]), pair: conv(&f[2]) }
                }
                fn to_m(&self) -> M {
                    M::Struct(vec![self.pairs.to_m(), self.either.to_m(), self.pair.to_m()])
                }
            }
            pub fn subjects() -> Vec<Vt> {
                let u = model::<$ft>;
                let pair = || st("Pair", &[(1, "a", true, u()), (2, "b", true, u())]);
                let either = || Ty::Union(def("Either", &[(1, "one", true, u()), (2, "several", true, Ty::list(u())), (17, "boxed", true, u()), (3, "sent", true, u())]));
                let holder = || st("Holder", &[
                    (1, "plain", true, u()), (2, "maybe", false, u()), (4, "many", true, Ty::list(u())), (20, "boxed", false, u()),
                    (19, "shared", true, u()), (21, "sent", false, u()), (22, "some", false, Ty::list(u())),
                ]);
                let n = |s: &str| format!("{s}/{}", $ft);
                let l = Ty::list;
                vec![
                    vt::<U>(n("U"), u(), "user"),
                    vt::<Vec<U>>(n("Vec<U>"), l(u()), "user"),
                    vt::<Vec<Vec<U>>>(n("Vec<Vec<U>>"), l(l(u())), "user"),
                    vt::<Vec<Option<U>>>(n("Vec<Option<U>>"), l(u()), "user"),
                    vt::<Vec<Box<U>>>(n("Vec<Box<U>>"), l(u()), "user"),
                    vt::<Vec<Arc<U>>>(n("Vec<Arc<U>>"), l(u()), "user"),
                    vt::<Rc<Vec<U>>>(n("Rc<Vec<U>>"), l(u()), "user"),
                    vt::<Box<U>>(n("Box<U>"), u(), "user"),
                    vt::<Rc<U>>(n("Rc<U>"), u(), "user"),
                    vt::<Arc<Rc<Box<U>>>>(n("Arc<Rc<Box<U>>>"), u(), "user"),
                    vt::<Option<U>>(n("Option<U>"), u(), "user").opt(),
                    vt::<Option<Arc<U>>>(n("Option<Arc<U>>"), u(), "user").opt(),
                    vt::<Option<Vec<U>>>(n("Option<Vec<U>>"), l(u()), "user").opt(),
                    vt::<Holder>(n("Holder"), holder(), "user"),
                    vt::<Pair>(n("Pair"), pair(), "user"),
                    vt::<Either>(n("Either"), either(), "user"),
                    vt::<Outer>(n("Outer"), st("Outer", &[(1, "pairs", true, l(pair())), (2, "either", false, either()), (3, "pair", true, pair())]), "user"),
                    vt::<Vec<Either>>(n("Vec<Either>"), l(either()), "user"),
                ]
            }
        }
    )*};
}
places!(u2: Flag = 2, u3: User<3> = 3, u4: User<4> = 4, u5: User<5> = 5, u6: User<6> = 6, u7: User<7> = 7, u8_: User<8> = 8, u9: User<9> = 9, u10: User<10> = 10, u12: User<12> = 12);

fn all() -> &'static Vec<Vt> {
    static A: OnceLock<Vec<Vt>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v: Vec<Vt> = [u2::subjects(), u3::subjects(), u4::subjects(), u5::subjects(), u6::subjects(), u7::subjects(), u8_::subjects(), u9::subjects(), u10::subjects(), u12::subjects()].into_iter().flatten().collect();
        // with only the required part a user's boolean can only be an element: as a field it would need the two header types
        v.push(vt::<Vec<User<2>>>("Vec<required>/2", Ty::list(Ty::Bool), "user"));
        v.push(vt::<Box<Vec<Rc<User<2>>>>>("Box<Vec<Rc<required>>>/2", Ty::list(Ty::Bool), "user"));
        v
    })
}

/// How many values of the user's type there are in a value: one for every occurrence.
fn count(v: &Vt, m: &M) -> usize {
    let ft: u8 = v.name.rsplit('/').next().unwrap().parse().unwrap();
    fn walk(ft: u8, ty: &Ty, m: &M) -> usize {
        match (ty, m) {
            (_, M::None) => 0,
            (Ty::Struct(d), _) if d.name == "User" => 1,
            (Ty::List(t), M::List(_)) if ft == 9 && matches!(**t, Ty::I8) => 1,
            (Ty::List(t), M::List(v)) => v.iter().map(|x| walk(ft, t, x)).sum(),
            (Ty::Struct(d), M::Struct(v)) => d.fields.iter().zip(v).map(|(f, x)| walk(ft, &f.ty, x)).sum(),
            (Ty::Union(d), M::Union(i, x)) => walk(ft, &d.fields[*i].ty, x),
            _ => 1,
        }
    }
    walk(ft, &v.ty, m)
}

/// No instance is left and none was given up twice.
fn settled(c: &mut Ctx, what: impl Fn() -> String) {
    c.compared(1);
    let left = ALIVE.with(|a| a.borrow().len());
    c.check(left == 0, || format!("{}: {left} values of the user's type are never dropped", what()));
    c.check(!TWICE.with(|t| t.get()), || format!("{}: a value of the user's type is dropped twice", what()));
}

fn errors() -> Vec<ThriftError> {
    vec![
        ThriftError::InvalidNumber,
        ThriftError::IO(ErrorKind::Interrupted),
        ThriftError::InvalidType,
        ThriftError::DuplicateField,
        ThriftError::IO(ErrorKind::UnexpectedEof),
        ThriftError::MissingField(FieldName::from("user\0")),
        // in thorough
        ThriftError::InvalidString,
        ThriftError::InvalidBinaryLen(7),
        ThriftError::InvalidCollectionLen,
        ThriftError::MissingValue,
        ThriftError::MissingStop,
        ThriftError::ReserveError,
        ThriftError::IO(ErrorKind::WouldBlock),
        ThriftError::IO(ErrorKind::TimedOut),
    ]
}

/// Each occurrence is written or filled exactly once, in order, and given up exactly once.
fn ways(c: &mut Ctx, v: &'static Vt, m: &M) {
    let n = count(v, m);
    let b = wire::canon(&to_w(&v.ty, m));
    c.state(&b);
    begin(None);
    let w = v.write(m);
    c.check(w.as_ref() == Ok(&b), || format!("{}: {} is written as {} instead of {}", v.name, brief(m), brief(&w.as_ref().map(|x| hex(x))), hex(&b)));
    let k = calls();
    c.check(k.len() == n && k.iter().all(|x| matches!(x, Call::Write(_))), || format!("{}: {n} values of the user's type are written by the calls {k:?}", v.name));
    settled(c, || format!("{}: {} written", v.name, brief(m)));
    for stream in [false, true] {
        begin(None);
        let mut buf = b.clone();
        buf.push(0x15);
        let (r, used) = if stream { v.read_stream_bytes(&buf) } else { v.read(&buf) };
        c.check(r.as_ref() == Ok(m) && used == b.len(), || format!("{}: {} reads as {} ({used} bytes)", v.name, hex(&b), brief(&r)));
        let k = calls();
        let mut ids: Vec<u32> = k.iter().filter_map(|x| if let Call::Fill(i) = x { Some(*i) } else { None }).collect();
        ids.sort();
        ids.dedup();
        c.check(k.len() == n && ids.len() == n, || format!("{}: {n} values of the user's type are filled by the calls {k:?}", v.name));
        settled(c, || format!("{}: {} read", v.name, hex(&b)));
    }
    c.sample(|| format!("{}: {} as {} with {n} calls", v.name, brief(m), hex(&b)));
    c.outcome("each occurrence once");
}

/// One call of the user's type fails or panics.
fn plots(c: &mut Ctx, v: &'static Vt, m: &M, es: &[ThriftError]) {
    let n = count(v, m);
    let b = wire::canon(&to_w(&v.ty, m));
    if n == 0 {
        return;
    }
    let at = c.choose(n);
    let e = c.choose(es.len() + 1);
    let late = c.choose(2) == 1;
    let plot = || if e < es.len() { Plot::Fail(late, es[e].clone()) } else { Plot::Panic(late) };
    c.state(format!("{} {at} {e} {late}", hex(&b)).as_bytes());
    let old = nth(&v.ty, 1);
    for how in 0..5 {
        begin(Some((at, plot())));
        let what = || format!("{}: {} with call {at} to end with {:?}, {}", v.name, hex(&b), plot(), ["read from a slice", "from a stream", "filled", "filled as a field", "written"][how]);
        let r = match how {
            0 => v.read(&b).0.map(drop),
            1 => v.read_stream_bytes(&b).0.map(drop),
            2 | 3 if v.option => continue,
            // a struct that is filled again is refused for its optional fields
            2 | 3 if has_optional(&v.ty) => continue,
            2 => v.fill(&old, &b).0,
            3 => v.fill_field(&old, v.ty.wire(), &b).0,
            _ => v.write(m).map(drop),
        };
        let made = calls().len();
        c.compared(1);
        let ok = if e < es.len() { r == Err(Er::from(es[e].clone())) } else { matches!(&r, Err(Er::Panic(m)) if m.starts_with("as planned")) };
        c.check(ok, || format!("{} gives {}", what(), brief(&r)));
        c.check(made == at + 1, || format!("{}: {made} calls were made", what()));
        settled(c, what);
    }
    c.outcome(if e < es.len() { "the error is passed on" } else { "unwound" });
}

/// Making a default of the user's type panics.
fn no_default(c: &mut Ctx, v: &'static Vt, m: &M) {
    let n = count(v, m);
    let b = wire::canon(&to_w(&v.ty, m));
    // how many are made is up to the library; the first ones of a holder are its own
    let left = c.choose(2 * n + 8);
    c.state(format!("{} {left}", hex(&b)).as_bytes());
    let old = nth(&v.ty, 1);
    for how in 0..4 {
        if how >= 2 && (v.option || has_optional(&v.ty)) {
            continue;
        }
        begin(None);
        let what = || format!("{}: {} {} when only {left} defaults can be made", v.name, hex(&b), ["read from a slice", "from a stream", "filled", "filled as a field"][how]);
        DEFAULTS.with(|d| d.set(left));
        let (r, whole) = match how {
            0 => (v.read(&b).0.map(|x| x == *m), true),
            1 => (v.read_stream_bytes(&b).0.map(|x| x == *m), true),
            2 => (v.fill(&old, &b).0.map(drop).map(|_| true), false),
            _ => (v.fill_field(&old, v.ty.wire(), &b).0.map(drop).map(|_| true), false),
        };
        let out = DEFAULTS.with(|d| d.replace(usize::MAX)) == 0;
        c.compared(1);
        let ok = match &r {
            Ok(same) => *same || !whole,
            Err(Er::Panic(m)) => out && m.starts_with("as planned"),
            _ => false,
        };
        c.check(ok, || format!("{} gives {}", what(), brief(&r)));
        settled(c, what);
        c.outcome(if r.is_ok() { "enough defaults" } else { "unwound from a default" });
    }
}

/// The input ends inside, or the wrong type arrives: the user's type is not called for what is not there.
fn broken(c: &mut Ctx, v: &'static Vt, m: &M) {
    let b = wire::canon(&to_w(&v.ty, m));
    let b = mutated(c, &b, &[0x00, 0x01, 0x15, 0x80, 0xFF]);
    c.state(&b);
    begin(None);
    let (r, n) = v.read_stream_bytes(&b);
    settled(c, || format!("{}: {} read from a stream", v.name, hex(&b)));
    begin(None);
    judge(c, v, &b, (r, n), Side::MustAccept);
    settled(c, || format!("{}: {} read", v.name, hex(&b)));
    begin(None);
    let (r, n) = v.read_stream_bytes(&b);
    judge(c, v, &b, (r, n), Side::MustReject);
}

/// A field of another wire type is refused without a call.
fn mistyped(c: &mut Ctx, v: &'static Vt) {
    let t = 1 + c.choose(15) as u8;
    if t == v.ty.wire() || t == 1 && matches!(v.ty, Ty::Bool) {
        return;
    }
    let m = nth(&v.ty, 0);
    let b = wire::canon(&to_w(&v.ty, &m));
    let old = if v.option { M::None } else { nth(&v.ty, 1) };
    c.state(&[t]);
    begin(None);
    let (r, _, n) = v.fill_field(&old, t, &b);
    let made = calls().len();
    c.compared(1);
    c.check(r == Err(Er::Type) && made == 0 && n == 0, || format!("{}: a field of type {t} gives {r:?}, {made} calls and {n} bytes taken", v.name));
    settled(c, || format!("{}: a field of type {t}", v.name));
    c.outcome("another type refused");
}

fn r24(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let es: &'static [ThriftError] = Box::leak(errors().into_boxed_slice());
    for v in all() {
        for &sparse in bases(&v.ty) {
            let k = bound(&v.ty, 1.0, if th { 300000.0 } else { 4000.0 }, 3);
            jobs.push(Job::new(format!("{}/{sparse}/values", v.name), k, move |c| {
                let m = value(c, &v.ty, sparse);
                ways(c, v, &m);
                begin(None);
                conforms(c, v, &m);
            }));
            let k = bound(&v.ty, 1.0, if th { 6000.0 } else { 300.0 }, 2).min(if th { 2 } else { 1 });
            jobs.push(Job::new(format!("{}/{sparse}/plots", v.name), k, move |c| {
                let m = value(c, &v.ty, sparse);
                plots(c, v, &m, if th { es } else { &es[..6] });
            }));
            jobs.push(Job::new(format!("{}/{sparse}/defaults", v.name), k, move |c| {
                let m = value(c, &v.ty, sparse);
                no_default(c, v, &m);
            }));
            jobs.push(Job::new(format!("{}/{sparse}/broken", v.name), 0, move |c| {
                let k = c.choose(if th { 3 } else { 1 });
                let m = if sparse { v.ty.default() } else { nth(&v.ty, k) };
                broken(c, v, &m);
            }));
            jobs.push(Job::new(format!("{}/{sparse}/forms", v.name), if th { 2 } else { 1 }, move |c| {
                let m = value(c, &v.ty, sparse);
                let mut b = vec![];
                wire::encode(&to_w(&v.ty, &m), true, &mut AnyForm { c }, &mut b);
                begin(None);
                accepts(c, v, &m, &b);
                settled(c, || format!("{}: {} read", v.name, hex(&b)));
            }));
        }
        jobs.push(Job::new(format!("{}/mistyped", v.name), 0, move |c| mistyped(c, v)));
        if matches!(v.ty, Ty::List(_)) && !v.name.starts_with("U/") {
            jobs.push(Job::new(format!("{}/long", v.name), 0, move |c| {
                let Ty::List(t) = &v.ty else { unreachable!() };
                let n = [14, 15, 16, 127, 128, 1000, 1025][c.choose(if th { 7 } else { 5 })];
                let m = M::List((0..n).map(|i| nth(t, i % 3)).collect());
                match c.choose(2) {
                    0 => ways(c, v, &m),
                    _ => plots(c, v, &m, &es[..1]),
                }
            }));
        }
    }
    layouts::jobs(&mut jobs);
    own::jobs(&mut jobs, th);
    Plan::new(jobs, &[
        "ten user types, one for every wire type (the boolean with field functions of its own, the others with only the required part), in 18 places: alone, elements of lists of lists, optional, boxed, shared, fields of structs and members of unions; a user's boolean with only the required part as an element",
        "values and encodings with at most K deviations (budget 4000 executions, thorough 300000; K <= 3); every single-byte change of one (three) encodings; 14 other wire types as a field; lists of up to 128 (1025) elements",
        "every call of the user's type failing with 6 (14) errors or panicking, before or after it took its bytes, while read from slice and stream, filled as value and as field, and written; every default it is asked for panicking; values within one (two) deviations",
        "seven more layouts (no content, one byte, a word, 128-byte alignment, 1200 bytes; with and without destructor) of five wire types in 14 places: lists of 8 lengths up to 40, each of up to 16 values refused, over old values of 6 lengths",
        "a user's number with field functions of its own, taken from six wire types and written in the smallest, zero not at all, in eleven places (required, optional, boxed, shared, in union members and nested rows): 15 wire types by 17 values by header forms, orders and other fields",
        "the calls the user's type receives are counted and every instance of it is followed from its making to its drop",
    ])
}

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "R24" => r24(th),
                _ => return None,
            })
        },
        |_| 2,
    )
}
