//! The traits as users' own code meets them: calls of the input and output traits in any order, inputs and outputs of
//! the user's own (R21), and error values (R22).
#[path = "../../kit.rs"]
mod kit;
mod pr_defs;
#[path = "../../subject.rs"]
mod subject;

use compact_thrift_runtime::{
    read_collection_len_and_type, read_map_len_and_types, CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol,
    FieldName, ThriftError,
};
use kit::{bases, brief, value};
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::{i64_edges, text};
use mc::hex;
use mc::ty::{encode, Idl, Ty, M};
use mc::wire;
use pr_defs::*;
use std::borrow::Cow;
use std::io::{BufReader, BufWriter, Cursor, Error as IoError, ErrorKind, Read, Write};
use std::rc::Rc;
use subject::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

// ---- an input and an output of the user's own -----------------------------------------------------------------------

/// Implements nothing but what the trait requires.
struct UserIn<'a> {
    b: &'a [u8],
    owned: bool,
    /// the call that fails, and how
    fail: Option<(usize, ThriftError)>,
    calls: usize,
}
impl<'a> UserIn<'a> {
    fn new(b: &'a [u8], owned: bool) -> Self {
        UserIn { b, owned, fail: None, calls: 0 }
    }
    fn call(&mut self) -> Result<(), ThriftError> {
        self.calls += 1;
        match &self.fail {
            Some((n, e)) if *n < self.calls => Err(e.clone()),
            _ => Ok(()),
        }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], ThriftError> {
        if n > self.b.len() {
            self.b = &[];
            return Err(ThriftError::IO(ErrorKind::UnexpectedEof));
        }
        let (x, y) = self.b.split_at(n);
        self.b = y;
        Ok(x)
    }
}
impl<'a> CompactThriftInput<'a> for UserIn<'a> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        self.call()?;
        Ok(self.take(1)?[0])
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        self.call()?;
        let mut bits = 0;
        for (i, b) in self.take(8)?.iter().enumerate() {
            bits |= (*b as u64) << (8 * i);
        }
        Ok(f64::from_bits(bits))
    }
    fn read_binary(&mut self) -> Result<Cow<'a, [u8]>, ThriftError> {
        self.call()?;
        let mut n = 0;
        for i in 0..10 {
            let b = self.take(1)?[0];
            n |= ((b % 128) as u64) << (7 * i);
            if b < 128 {
                break;
            }
        }
        let b = self.take(n as usize)?;
        Ok(if self.owned { Cow::Owned(b.to_vec()) } else { Cow::Borrowed(b) })
    }
}
/// Has its own way of producing the bytes.
struct UserOut {
    b: Vec<u8>,
    fail: Option<(usize, ThriftError)>,
    calls: usize,
}
impl UserOut {
    fn new(fail: Option<(usize, ThriftError)>) -> Self {
        UserOut { b: vec![], fail, calls: 0 }
    }
    fn call(&mut self) -> Result<(), ThriftError> {
        self.calls += 1;
        match &self.fail {
            Some((n, e)) if *n < self.calls => Err(e.clone()),
            _ => Ok(()),
        }
    }
    fn num(&mut self, v: u64) -> Result<(), ThriftError> {
        self.call()?;
        wire::varint(&mut self.b, v, 0);
        Ok(())
    }
}
impl CompactThriftOutput for UserOut {
    fn write_byte(&mut self, value: u8) -> Result<(), ThriftError> {
        self.call()?;
        self.b.push(value);
        Ok(())
    }
    fn write_len(&mut self, value: usize) -> Result<(), ThriftError> {
        self.num(value as u64)
    }
    fn write_i16(&mut self, value: i16) -> Result<(), ThriftError> {
        self.num(wire::zigzag(value as i64))
    }
    fn write_i32(&mut self, value: i32) -> Result<(), ThriftError> {
        self.num(wire::zigzag(value as i64))
    }
    fn write_i64(&mut self, value: i64) -> Result<(), ThriftError> {
        self.num(wire::zigzag(value))
    }
    fn write_double(&mut self, value: f64) -> Result<(), ThriftError> {
        self.call()?;
        for i in 0..8 {
            self.b.push((value.to_bits() >> (8 * i)) as u8);
        }
        Ok(())
    }
    fn write_binary(&mut self, value: &[u8]) -> Result<(), ThriftError> {
        self.call()?;
        wire::varint(&mut self.b, value.len() as u64, 0);
        self.b.extend_from_slice(value);
        Ok(())
    }
}
fn errors() -> Vec<ThriftError> {
    vec![
        ThriftError::InvalidNumber,
        ThriftError::InvalidString,
        ThriftError::InvalidBinaryLen(7),
        ThriftError::InvalidCollectionLen,
        ThriftError::MissingField(FieldName::from("user\0")),
        ThriftError::MissingValue,
        ThriftError::MissingStop,
        ThriftError::DuplicateField,
        ThriftError::InvalidType,
        ThriftError::ReserveError,
        ThriftError::IO(ErrorKind::TimedOut),
        ThriftError::IO(ErrorKind::UnexpectedEof),
    ]
}

// ---- programs of trait calls ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Byte(u8),
    Len(u64),
    I16(i16),
    I32(i32),
    I64(i64),
    Double(u64),
    Binary(Vec<u8>),
    Text(Vec<u8>),
    /// length, type, length apart from the header byte
    List(u64, u8, bool),
    Map(u64, u8, u8),
    /// a boolean field: all of it is in its header
    Field(i16, bool),
    /// the header of a field of another type
    Header(i16, u8, bool),
    /// the end of a struct
    Stop,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Read,
    Skip,
    SkipField,
}
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    U(u64),
    I(i64),
    B(Vec<u8>),
    H(u32, u8, u8),
    Skipped,
}
const LIMIT: u64 = wire::MAX_COLL;

impl Op {
    fn ways(&self) -> &'static [How] {
        match self {
            Op::Byte(_) | Op::Double(_) => &[How::Read, How::SkipField],
            Op::I16(_) | Op::I32(_) | Op::I64(_) | Op::Binary(_) | Op::Text(_) => &[How::Read, How::Skip, How::SkipField],
            _ => &[How::Read],
        }
    }
    fn bytes(&self, last: &mut i16, o: &mut Vec<u8>) {
        match self {
            Op::Byte(b) => o.push(*b),
            Op::Len(n) => wire::varint(o, *n, 0),
            Op::I16(v) => wire::varint(o, wire::zigzag(*v as i64), 0),
            Op::I32(v) => wire::varint(o, wire::zigzag(*v as i64), 0),
            Op::I64(v) => wire::varint(o, wire::zigzag(*v), 0),
            Op::Double(b) => (0..8).for_each(|i| o.push((b >> (8 * i)) as u8)),
            Op::Binary(b) | Op::Text(b) => {
                wire::varint(o, b.len() as u64, 0);
                o.extend_from_slice(b)
            }
            Op::List(n, t, long) => {
                if *long {
                    o.push(0xF0 + t);
                    wire::varint(o, *n, 0);
                } else {
                    o.push(*n as u8 * 16 + t);
                }
            }
            Op::Map(n, k, v) => {
                wire::varint(o, *n, 0);
                if *n > 0 {
                    o.push(k * 16 + v);
                }
            }
            Op::Field(id, x) => head(last, *id, if *x { 1 } else { 2 }, false, o),
            Op::Header(id, t, long) => head(last, *id, *t, *long, o),
            Op::Stop => o.push(0),
        }
    }
    fn expect(&self, how: How, last: &mut i16) -> Result<Seen, Er> {
        if how != How::Read {
            return Ok(Seen::Skipped);
        }
        Ok(match self {
            Op::Byte(b) => Seen::U(*b as u64),
            Op::Len(n) => Seen::U(*n),
            Op::I16(v) => Seen::I(*v as i64),
            Op::I32(v) => Seen::I(*v as i64),
            Op::I64(v) => Seen::I(*v),
            Op::Double(b) => Seen::U(*b),
            Op::Binary(b) | Op::Text(b) => Seen::B(b.clone()),
            Op::List(n, ..) | Op::Map(n, ..) if *n > LIMIT => return Err(Er::CollLen),
            Op::List(n, t, _) => Seen::H(*n as u32, *t, 0),
            Op::Map(0, ..) => Seen::H(0, 0, 0),
            Op::Map(n, k, v) => Seen::H(*n as u32, *k, *v),
            Op::Field(id, x) => {
                *last = *id;
                Seen::H(*id as u16 as u32, if *x { 1 } else { 2 }, 0)
            }
            Op::Header(id, t, _) => {
                *last = *id;
                Seen::H(*id as u16 as u32, *t, 0)
            }
            // which leaves the id of the last field as it was
            Op::Stop => Seen::H(*last as u16 as u32, 0, 0),
        })
    }
    fn read<'i, I: CompactThriftInput<'i> + ?Sized>(&self, how: How, i: &mut I, last: &mut i16) -> Result<Seen, ThriftError> {
        match how {
            How::Read => {}
            How::Skip => {
                match self {
                    Op::Binary(_) | Op::Text(_) => i.skip_binary()?,
                    _ => i.skip_integer()?,
                }
                return Ok(Seen::Skipped);
            }
            How::SkipField => {
                i.skip_field(match self {
                    Op::Byte(_) => 3,
                    Op::I16(_) => 4,
                    Op::I32(_) => 5,
                    Op::I64(_) => 6,
                    Op::Double(_) => 7,
                    _ => 8,
                })?;
                return Ok(Seen::Skipped);
            }
        }
        Ok(match self {
            Op::Byte(_) => Seen::U(i.read_byte()? as u64),
            Op::Len(_) => Seen::U(i.read_len()? as u64),
            Op::I16(_) => Seen::I(i.read_i16()? as i64),
            Op::I32(_) => Seen::I(i.read_i32()? as i64),
            Op::I64(_) => Seen::I(i.read_i64()?),
            Op::Double(_) => Seen::U(i.read_double()?.to_bits()),
            Op::Binary(_) => Seen::B(i.read_binary()?.to_vec()),
            Op::Text(_) => Seen::B(i.read_string()?.as_bytes().to_vec()),
            Op::List(..) => {
                let (n, t) = read_collection_len_and_type(i)?;
                Seen::H(n, t, 0)
            }
            Op::Map(..) => {
                let (n, k, v) = read_map_len_and_types(i)?;
                Seen::H(n, if n == 0 { 0 } else { k }, if n == 0 { 0 } else { v })
            }
            Op::Field(..) | Op::Header(..) | Op::Stop => {
                let t = i.read_field_header(last)?;
                Seen::H(*last as u16 as u32, t, 0)
            }
        })
    }
    /// None for what the output trait has no call for
    fn write<O: CompactThriftOutput>(&self, o: &mut O, last: &mut i16) -> Option<Result<(), ThriftError>> {
        Some(match self {
            Op::Byte(b) => o.write_byte(*b),
            Op::Len(n) => o.write_len(*n as usize),
            Op::I16(v) => o.write_i16(*v),
            Op::I32(v) => o.write_i32(*v),
            Op::I64(v) => o.write_i64(*v),
            Op::Double(b) => o.write_double(f64::from_bits(*b)),
            Op::Binary(b) => o.write_binary(b),
            Op::Text(b) => o.write_string(std::str::from_utf8(b).unwrap()),
            Op::Field(id, x) => x.write_thrift_field(o, *id, last),
            _ => return None,
        })
    }
}
fn head(last: &mut i16, id: i16, t: u8, long: bool, o: &mut Vec<u8>) {
    let d = id as i32 - *last as i32;
    if (1..=15).contains(&d) && !long {
        o.push(d as u8 * 16 + t);
    } else {
        o.push(t);
        wire::varint(o, wire::zigzag(id as i64), 0);
    }
    *last = id;
}

fn ops(th: bool) -> Vec<Op> {
    let mut v = vec![
        Op::Byte(0),
        Op::Byte(0xFF),
        Op::Len(0),
        Op::Len(300),
        Op::I16(-1),
        Op::I16(i16::MIN),
        Op::I32(i32::MAX),
        Op::I32(-70000),
        Op::I64(0),
        Op::I64(i64::MIN),
        Op::Double(0x0102_0304_0506_0708),
        Op::Double(0x7ff0_0000_0000_0001),
        Op::Binary(vec![]),
        Op::Binary(vec![0xFF, 0, 0x80]),
        Op::Text("a\u{e9}\u{1f600}".into()),
        Op::List(0, 8, false),
        Op::List(14, 5, false),
        Op::List(15, 12, true),
        Op::List(LIMIT + 1, 3, true),
        Op::Map(0, 0, 0),
        Op::Map(1, 8, 5),
        Op::Map(300, 3, 12),
        Op::Field(1, true),
        Op::Field(-7, false),
        Op::Header(16, 5, false),
        Op::Header(17, 12, true),
        Op::Header(i16::MAX, 8, false),
        Op::Stop,
    ];
    if th {
        v.extend([
            Op::Byte(0x80),
            Op::Len(127),
            Op::Len(u64::MAX),
            Op::I64(i64::MAX),
            Op::Binary(vec![7; 130]),
            Op::Text(text(128)),
            Op::List(3, 1, true),
            Op::List(LIMIT, 2, true),
            Op::Map(LIMIT, 12, 1),
            Op::Map(LIMIT + 1, 5, 5),
            Op::Field(i16::MIN, true),
            Op::Header(2, 9, false),
        ]);
    }
    v
}

type Got = (Vec<Result<Seen, Er>>, usize);

fn drive<'i, I: CompactThriftInput<'i> + ?Sized>(i: &mut I, p: &[(Op, How)]) -> Vec<Result<Seen, Er>> {
    let mut last = 0;
    let mut out = vec![];
    for (o, how) in p {
        let r = o.read(*how, i, &mut last).map_err(Er::from);
        let bad = r.is_err();
        out.push(r);
        if bad {
            break;
        }
    }
    out
}
/// The same program with every kind of input: what was seen, and how many bytes are left.
fn drives(b: &[u8], p: &[(Op, How)]) -> Vec<(&'static str, Got)> {
    let mut v = vec![];
    let mut i = CompactThriftInputSlice::new(b);
    let r = drive(&mut i, p);
    v.push(("a slice", (r, i.as_slice().len())));
    let mut i = CompactThriftInputSlice::from(b);
    let r = drive(&mut i, p);
    v.push(("a converted slice", (r, i.as_slice().len())));
    let mut s = b;
    let r = drive(&mut s, p);
    v.push(("a stream", (r, s.len())));
    let mut s = b;
    let d: &mut dyn Read = &mut s;
    let r = drive(d, p);
    v.push(("a dynamic stream", (r, s.len())));
    let mut s = Cursor::new(b);
    let r = drive(&mut s, p);
    v.push(("a cursor", (r, b.len() - s.position() as usize)));
    let mut s = BufReader::with_capacity(2, b);
    let r = drive(&mut s, p);
    let left = s.buffer().len() + s.get_ref().len();
    v.push(("a buffered stream", (r, left)));
    for owned in [false, true] {
        let mut i = UserIn::new(b, owned);
        let r = drive(&mut i, p);
        v.push((if owned { "the user's copying input" } else { "the user's input" }, (r, i.b.len())));
    }
    v
}

fn program(c: &mut Ctx, ops: &[Op], depth: usize) {
    let mut p: Vec<(Op, How)> = vec![];
    for k in 0..depth {
        let i = c.choose(ops.len() + (k > 0) as usize);
        if i == ops.len() {
            break;
        }
        let how = *c.pick(ops[i].ways());
        p.push((ops[i].clone(), how));
    }
    // the bytes, and where every call ends
    let mut b = vec![];
    let mut last = 0;
    let mut ends = vec![];
    for (o, _) in &p {
        o.bytes(&mut last, &mut b);
        ends.push(b.len());
    }
    c.state(&[b.as_slice(), format!("{p:?}").as_bytes()].concat());
    let mut want: Vec<Result<Seen, Er>> = vec![];
    let mut last = 0;
    for (o, how) in &p {
        let r = o.expect(*how, &mut last);
        let bad = r.is_err();
        want.push(r);
        if bad {
            break;
        }
    }
    let refused = want.last().is_some_and(|r| r.is_err());
    // a byte that must not be touched
    let whole = b.len();
    b.push(0xA5);
    let seen = guard(|| drives(&b, &p)).unwrap_or_else(|e| c.fail(format!("{p:?} on {} panics: {e}", hex(&b))));
    for (src, (r, left)) in seen {
        c.compared(1);
        if r != want || (!refused && left != 1) {
            c.fail(format!("{p:?} from {src} holding {}: expected {want:?} and one byte left, got {r:?} and {left} left", hex(&b)));
        }
    }
    // without its last byte
    if !refused && whole > 0 {
        b.truncate(whole - 1);
        let k = ends.iter().position(|e| *e == whole).unwrap();
        let mut want = want.clone();
        want.truncate(k);
        want.push(Err(EOF));
        let seen = guard(|| drives(&b, &p)).unwrap_or_else(|e| c.fail(format!("{p:?} on {} panics: {e}", hex(&b))));
        for (src, (r, _)) in seen {
            c.compared(1);
            if r != want {
                c.fail(format!("{p:?} from {src} holding {}, one byte short: expected {want:?}, got {r:?}", hex(&b)));
            }
        }
        b.push(0);
    }
    // a clone is a reader of its own
    if !refused {
        let mut b = vec![];
        let mut last = 0;
        p.iter().for_each(|(o, _)| o.bytes(&mut last, &mut b));
        for at in 0..=p.len() {
            let r = guard(|| {
                let mut i = CompactThriftInputSlice::new(&b);
                let mut last = 0;
                let mut first = vec![];
                for (o, how) in &p[..at] {
                    first.push(o.read(*how, &mut i, &mut last).map_err(Er::from));
                }
                let mut other = i.clone();
                let (mut l1, mut l2) = (last, last);
                let mut second = first.clone();
                for (o, how) in &p[at..] {
                    first.push(o.read(*how, &mut i, &mut l1).map_err(Er::from));
                }
                let n = i.as_slice().len();
                for (o, how) in &p[at..] {
                    second.push(o.read(*how, &mut other, &mut l2).map_err(Er::from));
                }
                (first, second, n, other.as_slice().len())
            });
            c.compared(1);
            match r {
                Ok((a, z, 0, 0)) if a == want && z == want => {}
                r => c.fail(format!("{p:?} on a slice holding {} cloned after {at} calls: {}", hex(&b), brief(&r))),
            }
        }
    }
    // written call by call
    if p.iter().all(|(o, h)| *h == How::Read && !matches!(o, Op::List(..) | Op::Map(..) | Op::Header(..) | Op::Stop)) {
        let mut want = vec![];
        let mut last = 0;
        p.iter().for_each(|(o, _)| o.bytes(&mut last, &mut want));
        fn put<O: CompactThriftOutput>(o: &mut O, p: &[(Op, How)]) -> Result<i16, Er> {
            let mut last = 0;
            for (x, _) in p {
                x.write(o, &mut last).unwrap().map_err(Er::from)?;
            }
            Ok(last)
        }
        let r = guard(|| {
            let mut v = vec![];
            let mut a = vec![];
            v.push((put(&mut a, &p), a));
            let mut a = vec![0u8; want.len()];
            let mut s = &mut a[..];
            let r = put(&mut s, &p);
            let left = s.len();
            a.truncate(want.len() - left);
            v.push((r, a));
            let mut a = vec![];
            let mut d: &mut dyn Write = &mut a;
            let r = put(&mut d, &p);
            v.push((r, a));
            let mut w = BufWriter::with_capacity(3, vec![]);
            let r = put(&mut w, &p);
            v.push((r, w.into_inner().unwrap()));
            let mut u = UserOut::new(None);
            v.push((put(&mut u, &p), u.b));
            v
        });
        c.compared(5);
        let ok = r.as_ref().is_ok_and(|v| v.iter().all(|(r, b)| *r == Ok(last) && *b == want));
        c.check(ok, || format!("{p:?} should be written as {} to every output, got {}", hex(&want), brief(&r)));
    }
    c.outcome(if refused { "a length refused" } else { "read as written" });
}

// ---- whole values -----------------------------------------------------------------------------------------------------

struct Whole {
    name: &'static str,
    ty: Ty,
    read: fn(&mut UserIn) -> Result<M, ThriftError>,
    write: fn(&M, &mut UserOut) -> Result<(), ThriftError>,
    field_type: u8,
}
fn whole<T: Subject + Default + for<'i> CompactThriftProtocol<'i>>(name: &'static str, ty: Ty) -> Whole {
    Whole {
        name,
        ty,
        read: |i| T::read_thrift(i).map(|v| v.to_m()),
        write: |m, o| T::from_m(m).write_thrift(o),
        field_type: <T as CompactThriftProtocol>::FIELD_TYPE,
    }
}
fn wholes() -> Vec<Whole> {
    let idl = Idl::parse(IDL);
    let d = |n: &str| idl.def(n);
    vec![
        whole::<i16>("i16", Ty::I16),
        whole::<f64>("f64", Ty::F64),
        whole::<String>("String", Ty::Str),
        whole::<Rc<str>>("Rc<str>", Ty::Str),
        whole::<Vec<u8>>("Vec<u8>", Ty::Bin),
        whole::<Vec<bool>>("Vec<bool>", Ty::list(Ty::Bool)),
        whole::<Vec<Vec<i64>>>("Vec<Vec<i64>>", Ty::list(Ty::list(Ty::I64))),
        whole::<Nil>("Nil", d("Nil")),
        whole::<Pair>("Pair", d("Pair")),
        whole::<Either>("Either", d("Either")),
        whole::<Every>("Every", d("Every")),
        whole::<Vec<Pair>>("Vec<Pair>", Ty::list(d("Pair"))),
        whole::<Later>("Later", d("Later")),
    ]
}

fn through_user_io(c: &mut Ctx, w: &Whole, m: &M) {
    let b = encode(&w.ty, m);
    c.state(&[w.name.as_bytes(), &b].concat());
    let mut o = UserOut::new(None);
    let r = guard(|| (w.write)(m, &mut o).map_err(Er::from));
    c.compared(1);
    c.check(r == Ok(Ok(())) && o.b == b, || format!("{}: {} written to the user's output gives {r:?} and {}, expected {}", w.name, brief(m), hex(&o.b), hex(&b)));
    for owned in [false, true] {
        let mut long = b.clone();
        long.push(0x77);
        let mut i = UserIn::new(&long, owned);
        let r = guard(|| (w.read)(&mut i).map_err(Er::from));
        c.compared(1);
        c.check(r.as_ref() == Ok(&Ok(m.clone())) && i.b.len() == 1, || {
            format!("{}: {} is {}, but from the user's input it is {} with {} bytes left", w.name, hex(&b), brief(m), brief(&r), i.b.len())
        });
        if w.field_type != 2 {
            let mut i = UserIn::new(&long, owned);
            let r = guard(|| i.skip_field(w.field_type).map_err(Er::from));
            c.check(r == Ok(Ok(())) && i.b.len() == 1, || format!("{}: skipping {} in the user's input gives {r:?} with {} bytes left", w.name, hex(&b), i.b.len()));
        }
    }
    c.outcome("through the user's input and output");
}
fn failing_user_io(c: &mut Ctx, w: &Whole, m: &M, all: &[ThriftError]) {
    let b = encode(&w.ty, m);
    let e = c.pick(all).clone();
    let want = format!("{e:?}");
    // every call in turn
    let mut n = 0;
    loop {
        let mut o = UserOut::new(Some((n, e.clone())));
        let r = guard(|| (w.write)(m, &mut o).map_err(|e| format!("{e:?}")));
        c.compared(1);
        match r {
            Ok(Err(g)) if g == want && o.calls == n + 1 && b.starts_with(&o.b) => {}
            Ok(Ok(())) if o.calls == n && o.b == b => break,
            r => c.fail(format!("{}: writing {} when call {} of the output fails with {want} gives {r:?} after {} calls and {}", w.name, brief(m), n + 1, o.calls, hex(&o.b))),
        }
        n += 1;
    }
    c.transitions_n(n as u64);
    let mut n = 0;
    loop {
        let mut i = UserIn::new(&b, false);
        i.fail = Some((n, e.clone()));
        let r = guard(|| (w.read)(&mut i).map_err(|e| format!("{e:?}")));
        c.compared(1);
        match r {
            Ok(Err(g)) if g == want && i.calls == n + 1 => {}
            Ok(Ok(x)) if i.calls == n && x == *m => break,
            r => c.fail(format!("{}: reading {} when call {} of the input fails with {want} gives {} after {} calls", w.name, hex(&b), n + 1, brief(&r), i.calls)),
        }
        n += 1;
    }
    if w.field_type != 2 {
        let mut n = 0;
        loop {
            let mut i = UserIn::new(&b, false);
            i.fail = Some((n, e.clone()));
            let r = guard(|| i.skip_field(w.field_type).map_err(|e| format!("{e:?}")));
            c.compared(1);
            match r {
                Ok(Err(g)) if g == want && i.calls == n + 1 => {}
                Ok(Ok(())) if i.calls == n && i.b.is_empty() => break,
                r => c.fail(format!("{}: skipping {} when call {} of the input fails with {want} gives {r:?} after {} calls", w.name, hex(&b), n + 1, i.calls)),
            }
            n += 1;
        }
    }
    c.transitions_n(n as u64);
    c.outcome("failure of the user's input or output passed on");
}

fn heads(c: &mut Ctx) {
    // every header byte with every kind of length
    let h = c.choose(256) as u8;
    let lens: Vec<u64> = [0, 1, 14, 15, 16, 127, 128, 1 << 14, LIMIT - 1, LIMIT, LIMIT + 1, 1 << 28, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 1 << 63, u64::MAX].to_vec();
    let n = *c.pick(&lens);
    let (o, b) = if c.choose(2) == 0 {
        let long = h >= 0xF0;
        let o = Op::List(if long { n } else { (h / 16) as u64 }, h % 16, long);
        let mut b = vec![];
        o.bytes(&mut 0, &mut b);
        (o, b)
    } else {
        let o = Op::Map(n, h / 16, h % 16);
        let mut b = vec![];
        o.bytes(&mut 0, &mut b);
        (o, b)
    };
    c.state(&[b.as_slice(), if matches!(o, Op::List(..)) { b"l" } else { b"m" }].concat());
    let p = [(o, How::Read)];
    let mut long = b.clone();
    long.push(9);
    let want = vec![p[0].0.expect(How::Read, &mut 0)];
    let seen = guard(|| drives(&long, &p)).unwrap_or_else(|e| c.fail(format!("{p:?} on {} panics: {e}", hex(&long))));
    for (src, (r, left)) in seen {
        c.compared(1);
        if r != want || (r[0].is_ok() && left != 1) {
            c.fail(format!("{p:?} from {src} holding {}: expected {want:?}, got {r:?} with {left} bytes left", hex(&long)));
        }
    }
    c.outcome(if want[0].is_ok() { "read as written" } else { "a length refused" });
}

fn borrowed(c: &mut Ctx) {
    // what an input lends is lent on, from where it lies
    let n = *c.pick(&[0usize, 1, 2, 7, 127, 128, 300]);
    let t = text(n);
    let mut b = vec![];
    Op::Text(t.clone()).bytes(&mut 0, &mut b);
    let at = b.len() - n;
    let user = c.choose(3);
    let as_text = c.choose(2) == 1;
    c.state(format!("{n} {user} {as_text}").as_bytes());
    fn look<'i, I: CompactThriftInput<'i>>(i: &mut I, as_text: bool) -> Result<(Vec<u8>, Option<*const u8>), Er> {
        if as_text {
            let s = i.read_string().map_err(Er::from)?;
            Ok((s.as_bytes().to_vec(), if let Cow::Borrowed(s) = &s { Some(s.as_ptr()) } else { None }))
        } else {
            let s = i.read_binary().map_err(Er::from)?;
            Ok((s.to_vec(), if let Cow::Borrowed(s) = &s { Some(s.as_ptr()) } else { None }))
        }
    }
    let r = guard(|| match user {
        0 => look(&mut CompactThriftInputSlice::new(&b), as_text),
        1 => look(&mut UserIn::new(&b, false), as_text),
        _ => look(&mut UserIn::new(&b, true), as_text),
    });
    c.compared(1);
    let place = b[at..].as_ptr();
    let ok = match &r {
        Ok(Ok((got, p))) => *got == t && (n == 0 || p.is_none() || (*p == Some(place) && user != 2)),
        _ => false,
    };
    c.check(ok, || format!("text of {n} bytes read from input {user} (text: {as_text}) gives {} (payload at {place:?})", brief(&r)));
    c.outcome("lent or copied");
}

fn ill_text(c: &mut Ctx) {
    // the text check applies to the user's own inputs as well
    let parts: [&[u8]; 8] = [b"a", &[0xC3, 0xA9], &[0x80], &[0xC3], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xE2, 0x82], &[0xC0, 0x80]];
    let mut t: Vec<u8> = vec![];
    for _ in 0..3 {
        let i = c.choose(parts.len() + 1);
        if i == parts.len() {
            break;
        }
        t.extend_from_slice(parts[i]);
    }
    let owned = c.choose(2) == 1;
    let mut b = vec![];
    Op::Binary(t.clone()).bytes(&mut 0, &mut b);
    c.state(&[b.as_slice(), &[owned as u8]].concat());
    let r = guard(|| UserIn::new(&b, owned).read_string().map(|s| s.as_bytes().to_vec()).map_err(Er::from));
    let r2 = guard(|| String::read_thrift(&mut UserIn::new(&b, owned)).map(|s| s.into_bytes()).map_err(Er::from));
    let want = if wire::utf8_ok(&t) { Ok(t.clone()) } else { Err(Er::Utf8) };
    c.compared(2);
    c.check(r == Ok(want.clone()) && r2 == Ok(want.clone()), || format!("text {} from the user's input: {r:?} and {r2:?}", hex(&t)));
    c.outcome(if want.is_ok() { "text" } else { "not text" });
}

fn r21(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let o = ops(true);
    jobs.push(Job::new("programs", 0, move |c| program(c, &o, if th { 4 } else { 3 })));
    let o = ops(false);
    jobs.push(Job::new("deep-programs", 0, move |c| program(c, &o, if th { 5 } else { 4 })));
    jobs.push(Job::new("heads", 0, heads));
    jobs.push(Job::new("borrowed", 0, borrowed));
    jobs.push(Job::new("ill-text", 0, ill_text));
    // single numbers at every edge
    jobs.push(Job::new("numbers", 0, |c| {
        let mut o: Vec<Op> = i64_edges(16).into_iter().map(|v| Op::I16(v as i16)).collect();
        o.extend(i64_edges(32).into_iter().map(|v| Op::I32(v as i32)));
        o.extend(i64_edges(64).into_iter().map(Op::I64));
        o.extend(i64_edges(64).into_iter().map(|v| Op::Len(v as u64)));
        o.extend((0..=255).map(Op::Byte));
        program(c, &o, 2);
    }));
    for w in wholes() {
        let w: &'static Whole = Box::leak(Box::new(w));
        for sparse in bases(&w.ty) {
            let bound = if th { 3 } else { 2 };
            jobs.push(Job::new(format!("whole/{}/{sparse}", w.name), bound, move |c| {
                let m = value(c, &w.ty, *sparse);
                through_user_io(c, w, &m);
            }));
            jobs.push(Job::new(format!("failing/{}/{sparse}", w.name), bound - 1, move |c| {
                let m = value(c, &w.ty, *sparse);
                // long values have thousands of calls
                if encode(&w.ty, &m).len() < 1500 {
                    failing_user_io(c, w, &m, &errors());
                }
            }));
        }
    }
    Plan::new(jobs, &[
        "programs of up to 4 (thorough 5) calls over 28 calls with arguments and of up to 3 (thorough 4) over 40, and all pairs of 16, 32 and 64-bit numbers, lengths and bytes at every edge, each read, skipped as a number or binary, or skipped as a field, on a slice, a converted slice, a stream, a dynamic stream, a cursor, a stream with a two-byte buffer and two inputs that implement only the required methods; complete, with one byte to spare, one byte short, and with the slice cloned after every prefix of the program",
        "all 256 list header bytes and map type bytes with 18 lengths around all limits",
        "13 types through a user's input and output: all values within two (thorough three) deviations of two bases; for those within one (thorough two), every call of the user's input and output failing in turn with 12 errors",
        "text of 7 lengths and up to three of 8 valid and invalid pieces from the user's inputs",
    ])
}

// ---- R22 --------------------------------------------------------------------------------------------------------------

fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}
fn name_checks(c: &mut Ctx, n: FieldName, want: &str) {
    let n2 = n.clone();
    let e = ThriftError::MissingField(n.clone());
    let r = guard(|| {
        let here = format!("{n}");
        let there = std::thread::scope(|s| {
            let m = n.clone();
            let moved = s.spawn(move || (format!("{m}"), format!("{m:?}"))).join().unwrap();
            let lent = s.spawn(|| format!("{n}")).join().unwrap();
            (moved, lent)
        });
        drop(n);
        let after = format!("{n2}");
        let padded = format!("{n2:>40}");
        let copy = match e.clone() {
            ThriftError::MissingField(x) => x.to_string(),
            _ => "another error".into(),
        };
        (here, there.0 .0, there.1, after, copy, padded.trim_start().to_string(), format!("{e}").contains(want), format!("{e:?}").contains(want))
    });
    c.compared(6);
    let plain = want.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b':');
    let ok = match &r {
        Ok((a, b, d, e, f, g, shown, debug)) => {
            [a, b, d, e, f].iter().all(|x| *x == want) && g.ends_with(want.trim_start()) && (!plain || (*shown && *debug))
        }
        _ => false,
    };
    c.check(ok, || format!("the field name {want:?} is shown as {r:?}"));
}
const KINDS: &[ErrorKind] = {
    use ErrorKind::*;
    &[
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse,
        AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem,
        StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, FileTooLarge, ResourceBusy, ExecutableFileBusy,
        Deadlock, TooManyLinks, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
};
/// A reader or writer that fails with a kind, in one of three forms.
fn io_error(kind: ErrorKind, form: usize) -> IoError {
    match form {
        0 => IoError::from(kind),
        1 => IoError::new(kind, "some reason"),
        _ => IoError::new(kind, IoError::from(ErrorKind::NotFound)),
    }
}
struct Broken(ErrorKind, usize);
impl Read for Broken {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(io_error(self.0, self.1))
    }
}
impl Write for Broken {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
        Err(io_error(self.0, self.1))
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Err(io_error(self.0, self.1))
    }
}

fn r22(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let most = if th { 4 } else { 3 };
    jobs.push(Job::new("names-text", 0, move |c| {
        const CH: [char; 12] = ['a', '_', 'Z', '9', ':', ' ', '"', '\\', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{7f}'];
        let mut s = String::new();
        for k in 0..most {
            let i = c.choose(CH.len() + (k > 0) as usize);
            if i == CH.len() {
                break;
            }
            s.push(CH[i]);
        }
        c.state(s.as_bytes());
        let closed: &'static str = std::str::from_utf8(leak(format!("{s}\0").as_bytes())).unwrap();
        match guard(|| FieldName::from(closed)) {
            Ok(n) => name_checks(c, n, &s),
            Err(e) => c.fail(format!("the field name {s:?} is refused: {e}")),
        }
        // without the end marker it is refused or taken as it is, but nothing behind it is read
        let around: &'static [u8] = leak(format!("{s}behind\0").as_bytes());
        let open: &'static str = std::str::from_utf8(&around[..s.len()]).unwrap();
        c.compared(1);
        match guard(|| FieldName::from(open).to_string()) {
            Ok(x) if x != s => c.fail(format!("the text {s:?} without an end marker is shown as {x:?}")),
            _ => {}
        }
        c.outcome("name shown as given");
    }));
    jobs.push(Job::new("names-bytes", 0, move |c| {
        const B: [u8; 10] = [b'a', b':', 1, 0x7F, 0x80, 0xC3, 0xA9, 0xFF, 0xE2, 0x20];
        let mut s = vec![];
        for k in 0..most {
            let i = c.choose(B.len() + (k > 0) as usize);
            if i == B.len() {
                break;
            }
            s.push(B[i]);
        }
        c.state(&s);
        let z = leak(&[&s[..], &[0]].concat());
        let n = FieldName::from(std::ffi::CStr::from_bytes_with_nul(z).unwrap());
        let want = String::from_utf8_lossy(&s).to_string();
        // what is shown may turn out not to be text
        let r = guard(|| (n.to_string().into_bytes(), n.clone().to_string().into_bytes(), format!("{n:?}").len()));
        c.compared(2);
        c.check(matches!(&r, Ok((a, b, _)) if *a == want.as_bytes() && *b == want.as_bytes()), || match &r {
            Ok((a, b, _)) => format!("the field name {} is shown as {} and, cloned, as {}", hex(&s), hex(a), hex(b)),
            Err(e) => format!("showing the field name {}: {e}", hex(&s)),
        });
        if std::str::from_utf8(&s).is_ok() {
            name_checks(c, n, &want);
        }
        c.outcome("name shown as given");
    }));
    jobs.push(Job::new("no-name", 0, |c| {
        c.state(b"empty");
        let z: &'static [u8] = leak(b"\0x\0");
        let empty = FieldName::from(std::ffi::CStr::from_bytes_until_nul(z).unwrap());
        c.check(guard(|| empty.to_string()) == Ok(String::new()), || "an empty field name is not shown as such".into());
        let just = std::str::from_utf8(&z[..1]).unwrap();
        c.check(!matches!(guard(|| FieldName::from(just).to_string()), Ok(x) if !x.is_empty()), || "an empty field name is not shown as such".into());
        let none: &'static str = std::str::from_utf8(&z[1..1]).unwrap();
        c.check(!matches!(guard(|| FieldName::from(none).to_string()), Ok(x) if !x.is_empty()), || "empty text is shown as something".into());
        c.compared(3);
        c.outcome("name shown as given");
    }));
    jobs.push(Job::new("kinds", 0, |c| {
        let k = *c.pick(KINDS);
        let form = c.choose(4);
        c.state(format!("{k:?} {form}").as_bytes());
        let e = guard(|| if form == 3 { ThriftError::from(k) } else { ThriftError::from(io_error(k, form)) });
        let ok = matches!(&e, Ok(ThriftError::IO(x)) if *x == k);
        c.check(ok, || format!("an I/O error of kind {k:?} (form {form}) becomes {e:?}"));
        let e = e.unwrap();
        let shown = guard(|| (e.to_string(), format!("{e:?}"), e.clone().to_string()));
        c.check(matches!(&shown, Ok((a, b, d)) if a.contains(&format!("{k:?}")) && b.contains(&format!("{k:?}")) && a == d), || format!("an I/O error of kind {k:?} is shown as {shown:?}"));
        c.compared(2);
        c.outcome("kind kept");
    }));
    // operating system errors keep the kind the standard library gives them
    jobs.push(Job::new("os-errors", 0, |c| {
        let code = c.choose(134) as i32;
        c.state(&code.to_le_bytes());
        let want = IoError::from_raw_os_error(code).kind();
        let e = guard(|| ThriftError::from(IoError::from_raw_os_error(code)));
        c.compared(1);
        c.check(matches!(&e, Ok(ThriftError::IO(x)) if *x == want), || format!("OS error {code} ({want:?}) becomes {e:?}"));
        c.outcome("kind kept");
    }));
    jobs.push(Job::new("broken-io", 0, |c| {
        let k = *c.pick(KINDS);
        if k == ErrorKind::Interrupted {
            return; // means: try again
        }
        let form = c.choose(3);
        let what = c.choose(8);
        c.state(format!("{k:?} {form} {what}").as_bytes());
        let r = guard(|| {
            let mut b = Broken(k, form);
            match what {
                0 => b.read_byte().map(|_| ()),
                1 => b.read_i64().map(|_| ()),
                2 => b.read_double().map(|_| ()),
                3 => b.read_binary().map(|_| ()),
                4 => b.skip_field(12),
                5 => Every::read_thrift(&mut b).map(|_| ()),
                6 => Every::default().write_thrift(&mut b),
                _ => b.write_binary(&[1, 2, 3]),
            }
            .map_err(Er::from)
        });
        c.compared(1);
        c.check(r == Ok(Err(Er::Io(k))), || format!("call {what} on an input or output that fails with {k:?} (form {form}) gives {r:?}"));
        c.outcome("kind kept");
    }));
    jobs.push(Job::new("all-errors", 0, |c| {
        let all = errors();
        let i = c.choose(all.len());
        let j = c.choose(all.len());
        c.state(&[i as u8, j as u8]);
        fn shared<T: Send + Sync + std::error::Error + Clone + 'static>(t: &T) -> Box<dyn std::error::Error + Send + Sync> {
            Box::new(t.clone())
        }
        let r = guard(|| {
            let b = shared(&all[i]);
            let t = std::thread::spawn(move || b.to_string()).join().unwrap();
            (all[i].to_string(), t, all[j].to_string())
        });
        c.compared(1);
        c.check(matches!(&r, Ok((a, b, d)) if a == b && !a.is_empty() && ((i == j) == (a == d))), || format!("errors {i} and {j} are shown as {r:?}"));
        c.outcome("shown, each differently");
    }));
    Plan::new(jobs, &[
        "all names of up to 3 (thorough 4) characters over 12 characters of one to four bytes, with and without an end marker, shown here, from two other threads, cloned, and after the original is gone",
        "all names of up to 3 (thorough 4) bytes over 10 bytes, valid text or not",
        "all 36 stable I/O error kinds in four forms, all OS error codes 0 to 133, 8 calls on inputs and outputs failing with each kind in three forms",
        "all pairs of 12 error values",
    ])
}

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "R21" => r21(th),
                "R22" => r22(th),
                _ => return None,
            })
        },
        |_| 2,
    )
}
