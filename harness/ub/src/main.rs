//! R26. This runs under an interpreter (Miri) that stops at undefined behaviour. The interpreter is slow, so the
//! explorer here is a small one of its own: it enumerates every sequence of choices of every job, and nothing more.
//! `list <tier>` prints the jobs, `run <tier> <job>` explores one of them, `run <tier> <job> trace` numbers the executions.
#[allow(dead_code)]
mod corpus;
#[path = "../../rt/src/defs.rs"]
#[allow(dead_code)]
mod defs;
mod pq;
#[path = "../../subject.rs"]
#[allow(dead_code)]
mod subject;

use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol, FieldName, ThriftError};
use defs::*;
use std::borrow::Cow;
use std::cell::Cell;
use std::hint::black_box;
use std::io::{ErrorKind, Read, Write};
use std::ops::Deref;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

// ---- the explorer -----------------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Ch {
    script: Vec<(usize, usize)>,
    pos: usize,
    choices: u64,
    pub looked: u64,
}
impl Ch {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.script.len() {
            self.script.push((0, n));
            self.choices += 1;
        }
        let (c, width) = self.script[self.pos];
        assert!(width == n, "ENGINE: divergence");
        self.pos += 1;
        c
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.choose(xs.len())]
    }
    /// To the next sequence of choices, if there is one.
    fn next(&mut self) -> bool {
        self.script.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.script.pop() {
            if c + 1 < n {
                self.script.push((c + 1, n));
                return true;
            }
        }
        false
    }
}
pub struct Job {
    name: String,
    f: Box<dyn Fn(&mut Ch)>,
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}
/// Every byte is read.
pub fn look(b: &[u8]) {
    black_box(b == black_box(b));
}
pub fn looks<T: PartialEq>(a: &T, b: &T) {
    black_box(a == b);
}

// ---- the environment --------------------------------------------------------------------------------------------------

/// Gives out the bytes in pieces, then fails.
pub struct Source<'b> {
    pub b: &'b [u8],
    pub piece: usize,
    pub end: Result<(), ErrorKind>,
    pub manner: Manner,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Manner {
    /// only writes into the buffer
    Plain,
    /// looks at the buffer before it writes into it
    Looks,
    /// says that the call with this number filled the buffer, without doing so
    Lies(usize),
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        match &mut self.manner {
            Manner::Plain => {}
            Manner::Looks => look(buf),
            Manner::Lies(0) => {
                let n = buf.len().min(self.b.len());
                self.b = &self.b[n..];
                self.manner = Manner::Plain;
                return Ok(n);
            }
            Manner::Lies(n) => *n -= 1,
        }
        let n = buf.len().min(self.b.len()).min(self.piece);
        if n == 0 && !buf.is_empty() {
            return self.end.map(|_| 0).map_err(|k| k.into());
        }
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}
pub fn plain(b: &[u8], piece: usize) -> Source<'_> {
    Source { b, piece, end: Ok(()), manner: Manner::Plain }
}
struct Sink(usize);
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        look(buf);
        let n = buf.len().min(self.0);
        self.0 -= n;
        if n == 0 && !buf.is_empty() {
            return Err(ErrorKind::StorageFull.into());
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// The bytes at any alignment, in a block of their own that ends with them.
fn aligned(b: &[u8], off: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() + off);
    v.resize(off, 0xAA);
    v.extend_from_slice(b);
    v
}

// ---- whole values -----------------------------------------------------------------------------------------------------

const SOME: [u8; 4] = [0x00, 0x15, 0x1C, 0xFF];
const MORE: [u8; 12] = [0x00, 0x01, 0x02, 0x0F, 0x15, 0x18, 0x19, 0x1C, 0x2C, 0x80, 0xC3, 0xFF];

fn encodings(name: &str) -> &'static [&'static [u8]] {
    corpus::RUNTIME.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no encodings of {name}")).1
}

/// A place in an encoding of the given length: all of them, or at most 12 evenly spread.
fn place(c: &mut Ch, len: usize, th: bool) -> usize {
    if th || len <= 12 {
        c.choose(len)
    } else {
        c.choose(12) * len / 12
    }
}
trait Value: PartialEq + Default + for<'i> CompactThriftProtocol<'i> {}
impl<T: PartialEq + Default + for<'i> CompactThriftProtocol<'i>> Value for T {}

fn slice<T: Value>(c: &mut Ch, b: &[u8]) {
    let r = guard(|| T::read_thrift(&mut CompactThriftInputSlice::new(b)));
    // shared values are compared by address, so a second one is needed to look at their bytes
    let s = guard(|| T::read_thrift(&mut CompactThriftInputSlice::new(b)));
    if let (Ok(Ok(r)), Ok(Ok(s))) = (&r, &s) {
        looks(r, s);
    }
    c.looked += 1;
}
fn stream<T: Value>(c: &mut Ch, b: &[u8], piece: usize, end: Result<(), ErrorKind>, manner: Manner) {
    let read = || guard(|| T::read_thrift(&mut Source { b, piece, end, manner }));
    let (r, s) = (read(), read());
    if let (Ok(Ok(r)), Ok(Ok(s))) = (&r, &s) {
        looks(r, s);
    }
    c.looked += 1;
}
fn cut<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let b = *c.pick(encs);
    let at = place(c, b.len() + 1, th);
    let b = &b[..at];
    match c.choose(if th { 4 } else { 3 }) {
        0 => slice::<T>(c, &aligned(b, at % 16)[at % 16..]),
        1 => stream::<T>(c, b, usize::MAX, Ok(()), Manner::Plain),
        2 => stream::<T>(c, b, 3, Err(ErrorKind::ConnectionReset), Manner::Plain),
        _ => {
            let _ = guard(|| T::read_thrift(&mut &b[..]).is_ok());
        }
    }
}
fn changed<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let mut b = c.pick(encs).to_vec();
    let at = place(c, b.len(), th);
    b[at] = *c.pick(if th { &MORE[..] } else { &SOME });
    slice::<T>(c, &b);
    if th {
        stream::<T>(c, &b, usize::MAX, Ok(()), Manner::Plain);
    }
}
fn filled<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let old = *c.pick(if th { encs } else { &encs[..encs.len().min(2)] });
    let good = *c.pick(encs);
    let field = c.choose(2) == 1;
    let at = if th { c.choose(good.len() + 1) } else { c.choose(5) * good.len() / 4 };
    let b = &good[..at];
    let Ok(mut v) = T::read_thrift(&mut CompactThriftInputSlice::new(old)) else { return };
    let t = <T as CompactThriftProtocol>::FIELD_TYPE;
    for b in [b, good] {
        let _ = guard(|| {
            let mut i = CompactThriftInputSlice::new(b);
            if field { v.fill_thrift_field(&mut i, t).is_ok() } else { v.fill_thrift(&mut i).is_ok() }
        });
        looks(&v, &v);
        let mut w = vec![];
        let _ = guard(|| v.write_thrift(&mut w).is_ok());
        look(&w);
    }
    c.looked += 1;
}
fn written<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let b = *c.pick(encs);
    let Ok(v) = T::read_thrift(&mut CompactThriftInputSlice::new(b)) else { return };
    let room = place(c, b.len() + 1, th);
    let _ = guard(|| v.write_thrift(&mut Sink(room)).is_ok());
    if room == 0 {
        let mut w = vec![];
        let _ = guard(|| v.write_thrift_field(&mut w, 5, &mut 0).is_ok());
        look(&w);
    }
    c.looked += 1;
}
fn any_reader<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let b = *c.pick(encs);
    let manner = match c.choose(if th { 9 } else { 6 }) {
        0 => Manner::Looks,
        n => Manner::Lies(n - 1),
    };
    let piece = *c.pick(&[usize::MAX, 1]);
    stream::<T>(c, b, piece, Ok(()), manner);
}
fn of<T: Value>(jobs: &mut Vec<Job>, name: &'static str, th: bool) {
    let encs = encodings(name);
    let parts: [(&str, fn(&mut Ch, &[&[u8]], bool)); 5] =
        [("cut", cut::<T>), ("changed", changed::<T>), ("filled", filled::<T>), ("written", written::<T>), ("any reader", any_reader::<T>)];
    if !th {
        // starting the interpreter takes longer than most of them
        return jobs.push(Job { name: name.into(), f: Box::new(move |c| (*c.pick(&parts)).1(c, encs, th)) });
    }
    for (part, f) in parts {
        jobs.push(Job { name: format!("{name} {part}"), f: Box::new(move |c| f(c, encs, th)) });
    }
}
macro_rules! types {
    ($jobs:ident, $th:ident: $($t:ty),* $(,)?) => { $( of::<$t>($jobs, stringify!($t).replace(' ', "").leak(), $th); )* }
}
fn values(jobs: &mut Vec<Job>, th: bool) {
    types!(jobs, th: AllOpt, WrapOpt, Vec<Rc<Small>>, Vec<Small>, Vec<Choice>, bool, i64, f64, Vec<u8>, String, Box<str>, Rc<str>, Arc<str>, Vec<bool>, Vec<i32>, Vec<String>,
        Vec<Arc<str>>, Option<i32>, Option<String>, Box<Small>, Rc<Choice>, Arc<i16>, Box<Rc<Arc<i32>>>, Small, Choice, OneFlag);
    if th {
        types!(jobs, th: Nested, i8, i16, i32, Vec<i8>, Vec<i64>, Vec<f64>, Vec<Vec<u8>>, Vec<Vec<i32>>, Vec<Vec<bool>>, Vec<Empty>, Vec<Color>, Vec<Box<bool>>, Vec<Box<str>>,
            Vec<Rc<String>>, Vec<Option<i32>>, Option<bool>, Option<Vec<bool>>, Option<Small>, Option<Box<Choice>>, Box<bool>, Rc<bool>, Arc<bool>, Rc<Vec<u8>>,
            Box<Vec<bool>>, Arc<AllOpt>, Box<Option<i32>>, Color, Empty, Late, AllReq, WrapReq, Bytes, Nested2, Mixed, ReqThree, Lay1x, Lay6x);
    }
}

/// What is borrowed from the input.
fn borrowed(c: &mut Ch) {
    let b: &[u8] = *c.pick(&[&[0x03, 0x41, 0x42, 0x43, 0x02, 0x44, 0x45][..], &[0x00, 0x01, 0x41], &[0x02, 0xC3, 0xA9, 0x02, 0xC3, 0x28], &[0x7F, 0x41]]);
    let at = c.choose(b.len() + 1);
    let b = aligned(&b[..at], at);
    let mut texts: [Cow<str>; 2] = Default::default();
    let mut bytes: [Cow<[u8]>; 2] = Default::default();
    {
        let mut i = CompactThriftInputSlice::new(&b[at..]);
        let mut j = i.clone();
        for k in 0..2 {
            let _ = guard(|| texts[k].fill_thrift(&mut i).is_ok());
            let _ = guard(|| bytes[k].fill_thrift(&mut j).is_ok());
        }
    }
    for k in 0..2 {
        look(texts[k].as_bytes());
        look(&bytes[k]);
    }
    // from a stream they are owned
    let mut s = plain(&b[at..], *c.pick(&[usize::MAX, 1]));
    let mut t: Cow<str> = "before".into();
    let mut u: Cow<[u8]> = b"before"[..].into();
    let _ = guard(|| t.fill_thrift(&mut s).is_ok());
    let _ = guard(|| u.fill_thrift(&mut s).is_ok());
    drop(b);
    look(t.as_bytes());
    look(&u);
    c.looked += 1;
}

// ---- skipping and single calls --------------------------------------------------------------------------------------

fn skip_integers(c: &mut Ch, th: bool) {
    // p continuation bytes, a terminator or not, a tail, at every alignment of the block
    let p = c.choose(if th { 36 } else { 20 });
    let tail = *c.pick(if th { &[usize::MAX, 0, 1, 2, 7, 8, 9, 14, 15, 16, 17, 18][..] } else { &[usize::MAX, 0, 1, 15, 16] });
    let off = if th { c.choose(16) } else { (p + 1) % 16 };
    let mut b = vec![0x85; p];
    if tail != usize::MAX {
        b.push(0x01);
        b.resize(p + 1 + tail, if tail % 2 == 0 { 0xFF } else { 0x00 });
    }
    let b = aligned(&b, off);
    for f in 0..2 {
        let mut i = CompactThriftInputSlice::new(&b[off..]);
        let _ = guard(|| if f == 0 { i.skip_integer().is_ok() } else { i.skip_field(5).is_ok() });
        look(i.as_slice());
    }
    c.looked += 1;
}
fn skip_values(c: &mut Ch, th: bool) {
    const VALUES: [(u8, &[u8]); 13] = [
        (1, b""),
        (3, b"\x7f"),
        (7, b"\x01\x02\x03\x04\x05\x06\x07\x08"),
        (8, b"\x05hello"),
        (8, b"\x00"),
        (9, b"\x35\x01\x02\x80\x01"),
        (9, b"\x21\x01\x02"),
        (9, b"\x1c\x15\x02\x00"),
        (9, b"\x38\x00\x01\xff\x01A"),
        (9, b"\x17\x01\x02\x03\x04\x05\x06\x07\x08"),
        (11, b"\x02\x58\x02\x01\x41\x04\x00"),
        (11, b"\x01\x11\x01\x02"),
        (12, b"\x15\x02\x18\x01A\x2c\x00\x19\x15\x02\x00"),
    ];
    let (t, v) = *c.pick(&VALUES);
    let mut b = v.to_vec();
    match c.choose(3) {
        0 => {}
        1 => b.truncate(c.choose(v.len() + 1)),
        _ if v.is_empty() => return,
        _ => {
            let i = c.choose(b.len());
            b[i] = *c.pick(if th { &MORE[..] } else { &SOME[2..] });
        }
    }
    if c.choose(2) == 1 {
        b.extend_from_slice(&[0x80; 17]);
    }
    let off = b.len() % 16;
    let b = aligned(&b, off);
    let mut i = CompactThriftInputSlice::new(&b[off..]);
    let _ = guard(|| i.skip_field(t).is_ok());
    look(i.as_slice());
    let mut s = plain(&b[off..], 2);
    let d: &mut dyn Read = &mut s;
    let _ = guard(|| d.skip_field(t).is_ok());
    c.looked += 1;
}
fn calls(c: &mut Ch, th: bool) {
    let n = c.choose(if th { 20 } else { 11 });
    let off = if th { c.choose(16) } else { [0, 1, 4][c.choose(3)] };
    let fill = *c.pick(if th { &[0x00_u8, 0x03, 0x41, 0x80, 0xFF][..] } else { &[0x03, 0x80] });
    let b = aligned(&vec![fill; n], off);
    let mut i = CompactThriftInputSlice::new(&b[off..]);
    let call = c.choose(11);
    let _ = guard(|| match call {
        0 => i.read_byte().unwrap_or(0) as i64,
        1 => i.read_i16().unwrap_or(0) as i64,
        2 => i.read_i32().unwrap_or(0) as i64,
        3 => i.read_i64().unwrap_or(0),
        4 => i.read_double().unwrap_or(0.0) as i64,
        5 => i.read_binary().map_or(0, |b| {
            look(&b);
            1
        }),
        6 => i.read_string().map_or(0, |b| {
            look(b.as_bytes());
            1
        }),
        7 => i.read_len().unwrap_or(0) as i64,
        8 => i.skip_binary().is_ok() as i64,
        9 => i.read_field_header(&mut 0).unwrap_or(0) as i64,
        _ => {
            // what was borrowed stays when the input is gone
            let (x, y) = {
                let mut i = i.clone();
                (i.read_binary(), i.read_binary())
            };
            if let (Ok(x), Ok(y)) = (&x, &y) {
                look(x);
                look(y);
            }
            0
        }
    });
    look(i.as_slice());
    c.looked += 1;
}

// ---- shared values --------------------------------------------------------------------------------------------------

trait Shared: Clone + Value {
    type Weak;
    fn weak(&self) -> Self::Weak;
    fn up(w: &Self::Weak) -> Option<Self>;
    fn see(&self);
}
macro_rules! shared_impl {
    ($($rc:ident, $m:ident);*) => { $(
        impl<P: PartialEq + ?Sized> Shared for $rc<P> where $rc<P>: Value, P: Bytes_ {
            type Weak = std::$m::Weak<P>;
            fn weak(&self) -> Self::Weak { $rc::downgrade(self) }
            fn up(w: &Self::Weak) -> Option<Self> { w.upgrade() }
            fn see(&self) { P::see(self) }
        }
    )* };
}
shared_impl!(Rc, rc; Arc, sync);
trait Bytes_ {
    fn see(&self);
}
macro_rules! see {
    ($($t:ty: |$x:ident| $e:expr),* $(,)?) => { $( impl Bytes_ for $t { fn see(&self) { let $x = self; black_box($e); } } )* };
}
see!(i32: |x| *x, i64: |x| *x, bool: |x| *x as u8 + 1, String: |x| look(x.as_bytes()), Vec<u8>: |x| look(x), Vec<i32>: |x| looks(x, x), str: |x| look(x.as_bytes()),
    Vec<String>: |x| looks(x, x), Choice: |x| looks(x, x), Small: |x| looks(x, x), Box<Small>: |x| looks(x, x));

/// A reader which holds handles of the value that is being filled and looks at it.
struct Peeks<'b, H: Shared> {
    s: Source<'b>,
    held: Vec<H>,
    weak: Vec<H::Weak>,
}
impl<H: Shared> Read for Peeks<'_, H> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.held.iter().for_each(H::see);
        let again: Vec<H> = self.weak.iter().filter_map(H::up).collect();
        again.iter().for_each(H::see);
        let n = self.s.read(buf);
        again.iter().for_each(H::see);
        n
    }
}

fn share<H: Shared + Deref>(c: &mut Ch, first: &[u8], second: &[u8])
where
    H::Target: Bytes_,
{
    let others = c.choose(3);
    let weaks = c.choose(2);
    let as_field = c.choose(2) == 1;
    let peeks = c.choose(2) == 1;
    let b = &second[..second.len() - c.choose(2)];
    let Ok(mut h) = H::read_thrift(&mut CompactThriftInputSlice::new(first)) else { return };
    let held: Vec<H> = (0..others).map(|_| h.clone()).collect();
    let weak: Vec<H::Weak> = (0..weaks).map(|_| h.weak()).collect();
    let see = |h: &H, held: &[H]| {
        h.see();
        held.iter().for_each(H::see);
        weak.iter().filter_map(H::up).for_each(|h| h.see());
    };
    let t = <H as CompactThriftProtocol>::FIELD_TYPE;
    // somebody holds references to it, or reads the value while it is filled
    let seen: Vec<&H::Target> = held.iter().map(|h| &**h).collect();
    for b in [b, second] {
        let _ = guard(|| {
            if peeks {
                let mut i = Peeks { s: plain(b, 1), held: held.clone(), weak: (0..weaks).map(|_| h.weak()).collect() };
                return if as_field { h.fill_thrift_field(&mut i, t).is_ok() } else { h.fill_thrift(&mut i).is_ok() };
            }
            let mut i = CompactThriftInputSlice::new(b);
            if as_field { h.fill_thrift_field(&mut i, t).is_ok() } else { h.fill_thrift(&mut i).is_ok() }
        });
        seen.iter().for_each(|x| x.see());
        see(&h, &held);
    }
    drop(held);
    let _ = guard(|| h.fill_thrift(&mut CompactThriftInputSlice::new(first)).is_ok());
    see(&h, &[]);
    c.looked += 1;
}
fn shared(c: &mut Ch) {
    const TEXT: [&[u8]; 2] = [b"\x02AB", b"\x03CDE"];
    const CHOICE: [&[u8]; 2] = [&[0x15, 0x02, 0x00], &[0x28, 0x02, 0x73, 0x32, 0x00]];
    const SMALL: [&[u8]; 2] = [&[0x15, 0x02, 0x18, 0x01, 0x41, 0x00], &[0x15, 0x04, 0x18, 0x02, 0x42, 0x43, 0x00]];
    match c.choose(15) {
        0 => share::<Rc<i32>>(c, &[2], &[4]),
        1 => share::<Arc<i64>>(c, &[2], &[0x84, 1]),
        2 => share::<Rc<bool>>(c, &[1], &[2]),
        3 => share::<Arc<bool>>(c, &[1], &[2]),
        4 => share::<Rc<String>>(c, TEXT[0], TEXT[1]),
        5 => share::<Arc<String>>(c, TEXT[0], TEXT[1]),
        6 => share::<Rc<Vec<u8>>>(c, TEXT[0], TEXT[1]),
        7 => share::<Arc<Vec<i32>>>(c, &[0x15, 0x02], &[0x25, 0x02, 0x04]),
        8 => share::<Rc<Vec<String>>>(c, &[0x18, 0x01, 0x41], &[0x28, 0x01, 0x42, 0x01, 0x43]),
        9 => share::<Rc<Choice>>(c, CHOICE[0], CHOICE[1]),
        10 => share::<Arc<Choice>>(c, CHOICE[0], CHOICE[1]),
        11 => share::<Rc<Small>>(c, SMALL[0], SMALL[1]),
        12 => share::<Arc<Box<Small>>>(c, SMALL[0], SMALL[1]),
        13 => share::<Rc<str>>(c, TEXT[0], TEXT[1]),
        _ => share::<Arc<str>>(c, TEXT[0], TEXT[1]),
    }
}

// ---- users' own implementations -------------------------------------------------------------------------------------

/// Fails at 0x7C and 0x7E, panics at 0x7D and 0x7F, before or after it has changed.
#[derive(PartialEq)]
struct Mine(Box<i8>);
thread_local! {
    /// how many more defaults there are before one panics
    static DEFAULTS: Cell<usize> = const { Cell::new(usize::MAX) };
}
impl Default for Mine {
    fn default() -> Self {
        DEFAULTS.with(|d| {
            assert!(d.get() > 0, "no default");
            d.set(d.get() - 1);
        });
        Mine(Box::new(1))
    }
}
impl<'i> CompactThriftProtocol<'i> for Mine {
    const FIELD_TYPE: u8 = 3;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        looks(self, self);
        match input.read_byte()? {
            0x7C => return Err(ThriftError::InvalidNumber),
            0x7D => panic!("before"),
            x => self.0 = Box::new(x as i8),
        }
        match *self.0 {
            0x7E => Err(ThriftError::InvalidNumber),
            0x7F => panic!("after"),
            _ => Ok(()),
        }
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        if *self.0 == 0x7B {
            panic!("written");
        }
        output.write_byte(*self.0 as u8)
    }
}
fn mine<T: Value>(c: &mut Ch, head: &[u8], elements: usize) {
    let mut b = head.to_vec();
    for _ in 0..elements {
        b.push(*c.pick(&[0x41, 0x7B, 0x7C, 0x7D, 0x7E, 0x7F]));
    }
    let mut v = T::default();
    // a default that panics is the only fault of its execution
    let faults = b[head.len()..].iter().any(|x| *x >= 0x7C);
    let lack = if faults { 0 } else { c.choose(2 * elements + 1) };
    for _ in 0..2 {
        DEFAULTS.with(|d| d.set(if lack > 0 { lack - 1 } else { usize::MAX }));
        let _ = guard(|| v.fill_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
        looks(&v, &v);
    }
    DEFAULTS.with(|d| d.set(usize::MAX));
    let mut out = vec![];
    let _ = guard(|| v.write_thrift(&mut out).is_ok());
    look(&out);
    c.looked += 1;
}
fn users(c: &mut Ch) {
    match c.choose(10) {
        0 => mine::<Mine>(c, &[], 1),
        1 => mine::<Vec<Mine>>(c, &[0x33], 3),
        2 => mine::<Option<Mine>>(c, &[], 1),
        3 => mine::<Box<Mine>>(c, &[], 1),
        4 => mine::<Rc<Mine>>(c, &[], 1),
        5 => mine::<Arc<Mine>>(c, &[], 1),
        6 => mine::<Vec<Box<Mine>>>(c, &[0x23], 2),
        7 => mine::<Vec<Option<Rc<Mine>>>>(c, &[0x23], 2),
        8 => mine::<Option<Vec<Mine>>>(c, &[0x23], 2),
        _ => mine::<Rc<Vec<Arc<Mine>>>>(c, &[0x23], 2),
    }
}
/// An input of the user's with only the required functions.
struct Own<'b>(&'b [u8]);
impl<'b> CompactThriftInput<'b> for Own<'b> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        let (x, rest) = self.0.split_first().ok_or(ThriftError::MissingValue)?;
        self.0 = rest;
        Ok(*x)
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        Err(ThriftError::MissingValue)
    }
    fn read_binary(&mut self) -> Result<Cow<'b, [u8]>, ThriftError> {
        let n = self.read_len()?;
        if n > self.0.len() {
            return Err(ThriftError::MissingValue);
        }
        let (x, rest) = self.0.split_at(n);
        self.0 = rest;
        Ok(if n % 2 == 0 { x.into() } else { x.to_vec().into() })
    }
}
fn own_input(c: &mut Ch) {
    let b: &[u8] = *c.pick(&[&b"\x02AB\x03CDE\x04FGHI\x00"[..], b"\x01\xc3\xa9\x02\xc3\xa9", b"\x03\x20\x01\xff", b"\x00"]);
    let at = c.choose(b.len() + 1);
    let b = &b[..at];
    let mut i = Own(b);
    let mut kept = vec![];
    for _ in 0..3 {
        if let Ok(Ok(s)) = guard(|| i.read_string()) {
            kept.push(s);
        }
    }
    for s in &kept {
        look(s.as_bytes());
    }
    let mut i = Own(b);
    let _ = guard(|| i.skip_field(9).is_ok());
    let _ = guard(|| i.skip_field(12).is_ok());
    c.looked += 1;
}

// ---- errors ---------------------------------------------------------------------------------------------------------

fn errors(c: &mut Ch) {
    let n = c.choose(9);
    let made: Result<FieldName, ()> = guard(|| match n {
        0 => "\0".into(),
        1 => "a\0".into(),
        2 => "a\0b\0".into(),
        3 => "Struct::field\0".into(),
        4 => "\u{e9}\u{20ac}\0".into(),
        5 => "no end".into(),
        6 => c"from a CStr".into(),
        7 => c"".into(),
        _ => "".into(),
    });
    c.looked += 1;
    let Ok(name) = made else { return };
    let e = ThriftError::MissingField(name.clone());
    let f = e.clone();
    drop(name);
    let look_at = |e: &ThriftError| look(format!("{e} {e:?}").as_bytes());
    look_at(&e);
    match c.choose(3) {
        0 => drop(e),
        1 => {
            let t = std::thread::spawn(move || {
                look_at(&e);
                e
            });
            look_at(&f);
            look_at(&t.join().unwrap());
        }
        _ => std::thread::scope(|s| {
            for _ in 0..2 {
                s.spawn(|| look_at(&e));
            }
        }),
    }
    look_at(&f);
}

pub fn jobs(th: bool) -> Vec<Job> {
    let mut jobs = vec![];
    values(&mut jobs, th);
    let mut one = |name: &str, f: fn(&mut Ch, bool)| jobs.push(Job { name: name.into(), f: Box::new(move |c| f(c, th)) });
    one("skip/integers", skip_integers);
    one("skip/values", skip_values);
    one("calls", calls);
    one("borrowed", |c, _| borrowed(c));
    one("shared", |c, _| shared(c));
    one("users' values", |c, _| users(c));
    one("users' input", |c, _| own_input(c));
    one("errors", |c, _| errors(c));
    one("parquet/footer", pq::footer);
    one("parquet/indexes", pq::indexes);
    one("parquet/encodings", pq::set);
    jobs
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let th = a.get(2).is_some_and(|t| t == "thorough");
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(String::as_str) {
        Some("list") => jobs(th).iter().for_each(|j| println!("JOB {}", j.name)),
        Some("run") => {
            let trace = a.get(4).is_some_and(|x| x == "trace");
            let job = jobs(th).into_iter().find(|j| j.name == a[3]).expect("job");
            let mut c = Ch::default();
            let mut execs = 0_u64;
            loop {
                if trace {
                    // an execution is known by its number
                    println!("EXECUTION {execs}");
                }
                (job.f)(&mut c);
                execs += 1;
                if !c.next() {
                    break;
                }
            }
            println!("DONE {execs} {} {}", c.choices, c.looked);
        }
        _ => std::process::exit(2),
    }
}
