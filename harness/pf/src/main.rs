//! R30. The same executions on every platform: this is built for the host and run under an interpreter (Miri) for other
//! targets, and what is observed has to agree. The explorer enumerates every sequence of choices of every job.
//! `list <tier>` prints the jobs, `run <tier> <job>...` explores them and prints a digest of what each one observed,
//! `show <tier> <job>` prints the observations.
#[path = "../../ub/src/corpus.rs"]
#[allow(dead_code)]
mod corpus;
#[path = "../../rt/src/defs.rs"]
#[allow(dead_code)]
mod defs;
mod pq;
#[path = "../../subject.rs"]
#[allow(dead_code)]
mod subject;

use compact_thrift_runtime::*;
use defs::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Arc;

// ---- the explorer -----------------------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Ch {
    script: Vec<(usize, usize)>,
    pos: usize,
    choices: u64,
    digest: u64,
    show: bool,
}
impl Ch {
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.script.len() {
            self.script.push((0, n));
            self.choices += 1;
        }
        let (c, width) = self.script[self.pos];
        assert!(width == n, "ENGINE: divergence");
        self.pos += 1;
        c
    }
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.choose(xs.len())]
    }
    fn next(&mut self) -> bool {
        self.script.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.script.pop() {
            if c + 1 < n {
                self.script.push((c + 1, n));
                return true;
            }
        }
        false
    }

    // formatting takes long under the interpreter, so text is only made to be shown

    fn mix(&mut self, n: u64) {
        self.digest = (self.digest ^ n).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
    pub fn num(&mut self, what: &str, n: u64) {
        self.mix(n);
        if self.show {
            print!("{what} {n} ");
        }
    }
    pub fn bytes(&mut self, what: &str, b: &[u8]) {
        self.mix(b.len() as u64);
        let (mut at, mut word) = (0, 0_u64);
        while at < b.len() {
            word = word << 8 | b[at] as u64;
            at += 1;
            if at % 8 == 0 {
                self.mix(word);
            }
        }
        self.mix(word);
        if self.show {
            print!("{what} ");
            b.iter().for_each(|b| print!("{b:02x}"));
            print!(" ");
        }
    }
    pub fn error(&mut self, e: &ThriftError) {
        let n = match e {
            ThriftError::InvalidNumber => 1,
            ThriftError::InvalidString => 2,
            ThriftError::InvalidBinaryLen(n) => 3 + (len32(*n) << 8),
            ThriftError::InvalidCollectionLen => 4,
            ThriftError::MissingField(_) => 5,
            ThriftError::MissingValue => 6,
            ThriftError::MissingStop => 7,
            ThriftError::DuplicateField => 8,
            ThriftError::InvalidType => 9,
            ThriftError::ReserveError => 10,
            ThriftError::NestingTooDeep => 11,
            ThriftError::IO(kind) => 12 + ((*kind as u64) << 8),
        };
        self.mix(n);
        if self.show {
            print!("{e:?} ");
        }
    }
    pub fn text(&mut self, what: &str) {
        self.bytes("", what.as_bytes());
        if self.show {
            print!("({what}) ");
        }
    }
    /// What a call returned, and how much of the input is left after it.
    pub fn result<T>(&mut self, what: &str, r: &Result<Result<T, ThriftError>, ()>, left: usize) -> bool {
        match r {
            Ok(Ok(_)) => self.num(what, left as u64),
            Ok(Err(e)) => {
                if self.show {
                    print!("{what} ");
                }
                self.error(e)
            }
            Err(()) => self.text("a panic"),
        }
        matches!(r, Ok(Ok(_)))
    }
}

pub struct Job {
    name: String,
    f: Box<dyn Fn(&mut Ch)>,
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

// ---- observations -----------------------------------------------------------------------------------------------------

/// A length that is reported may be cut off where the platform's ends.
pub fn len32(n: usize) -> u64 {
    (n as u64).min(u32::MAX as u64)
}
pub trait Value: Default + for<'i> CompactThriftProtocol<'i> {}
impl<T: Default + for<'i> CompactThriftProtocol<'i>> Value for T {}

fn observe<T: Value>(c: &mut Ch, from: &str, r: Result<Result<T, ThriftError>, ()>, left: usize) {
    if c.result(from, &r, left) {
        let v = r.unwrap().unwrap();
        let mut w = Vec::with_capacity(300);
        let again = guard(|| v.write_thrift(&mut w));
        c.result("written", &again, 0);
        c.bytes("as", &w);
    }
}
pub fn slice<T: Value>(c: &mut Ch, b: &[u8]) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = guard(|| T::read_thrift(&mut i));
    observe(c, "slice", r, i.as_slice().len());
}
pub fn both<T: Value>(c: &mut Ch, b: &[u8]) {
    slice::<T>(c, b);
    let mut s = b;
    let r = guard(|| T::read_thrift(&mut s));
    observe(c, "stream", r, s.len());
}

/// How much more is explored where nothing is interpreted.
static DEPTH: AtomicU8 = AtomicU8::new(0);

// ---- whole values -----------------------------------------------------------------------------------------------------

const SOME: [u8; 4] = [0x00, 0x15, 0x1C, 0xFF];
const MORE: [u8; 12] = [0x00, 0x01, 0x02, 0x0F, 0x15, 0x18, 0x19, 0x1C, 0x2C, 0x80, 0xC3, 0xFE];

fn encodings(name: &str) -> &'static [&'static [u8]] {
    corpus::RUNTIME.iter().find(|x| x.0 == name).unwrap_or_else(|| panic!("no encodings of {name}")).1
}
/// A place in an encoding: all of them, or some, evenly spread.
fn place(c: &mut Ch, len: usize, th: bool) -> usize {
    let most = if th { 100 } else { 12 };
    if len <= most {
        c.choose(len)
    } else {
        c.choose(most) * len / most
    }
}
pub fn value<T: Value>(c: &mut Ch, encs: &[&[u8]], th: bool) {
    let b = *c.pick(encs);
    match c.choose(2) {
        0 => {
            let at = place(c, b.len() + 1, th);
            both::<T>(c, &b[..b.len() - at]);
        }
        _ => {
            let mut b = b.to_vec();
            match DEPTH.load(Ordering::Relaxed) {
                0 => {
                    let at = place(c, b.len(), th);
                    b[at] = *c.pick(if th { &MORE[..] } else { &SOME });
                }
                deep => {
                    let at = c.choose(b.len());
                    // long ones take too long for all of them
                    b[at] = if b.len() <= 100 * deep as usize { c.choose(256) as u8 } else { *c.pick(&MORE) };
                    if deep == 2 && b.len() <= 10 {
                        let at = c.choose(b.len());
                        b[at] = *c.pick(&MORE);
                    }
                }
            }
            both::<T>(c, &b);
        }
    }
}
macro_rules! types {
    ($jobs:ident, $th:ident: $($t:ty),* $(,)?) => { $(
        let name: &str = stringify!($t).replace(' ', "").leak();
        $jobs.push(Job { name: name.into(), f: Box::new(move |c| value::<$t>(c, encodings(name), $th)) });
    )* }
}
fn values(jobs: &mut Vec<Job>, th: bool) {
    types!(jobs, th: AllOpt, WrapOpt, Vec<Small>, Vec<Choice>, bool, i8, i16, i32, i64, f64, Vec<u8>, String, Arc<str>, Vec<bool>, Vec<i16>, Vec<i64>, Vec<f64>,
        Vec<String>, Option<i32>, Box<Small>, Rc<Choice>, Small, Choice, Color, Late, Names, Lay1x, Lay6x, Lay14x);
    if th {
        types!(jobs, th: Nested, Nested2, AllReq, WrapReq, Bytes, Mixed, ReqThree, Vec<i8>, Vec<i32>, Vec<Vec<u8>>, Vec<Vec<i32>>, Vec<Vec<Vec<i64>>>, Vec<Empty>, Vec<Color>,
            Vec<Box<bool>>, Vec<Rc<Small>>, Vec<Arc<str>>, Vec<Option<i32>>, Option<bool>, Option<f64>, Option<Small>, Box<i32>, Rc<i64>, Arc<i16>, Arc<AllOpt>,
            Box<Rc<Arc<i32>>>, Empty, OneFlag, Lay0x, Lay0y, Lay2x, Lay3x, Lay8y, Lay15x, Lay16y, Lay18x, Lay19y, Lay20x);
    }
}

// ---- numbers and lengths ----------------------------------------------------------------------------------------------

pub fn uleb(mut n: u128) -> Vec<u8> {
    let mut b = vec![];
    loop {
        let low = (n & 0x7F) as u8;
        n >>= 7;
        if n == 0 {
            b.push(low);
            return b;
        }
        b.push(low | 0x80);
    }
}
/// Around the powers of two, as far as `bits`.
pub fn edges(bits: u32, th: bool) -> &'static [u128] {
    static MADE: std::sync::Mutex<Vec<(u32, &'static [u128])>> = std::sync::Mutex::new(vec![]);
    let mut made = MADE.lock().unwrap();
    if let Some(x) = made.iter().find(|x| x.0 == bits) {
        return x.1;
    }
    let mut x = vec![0, 10_000_000, 10_000_001, (1 << 32) + 10_000_000, (1 << 40) + 3];
    for k in 0..=bits {
        if th || [0, 2, 7, 15, 16, 24, 31, 32, 62, 63, 64, 66].contains(&k) {
            let p = 1_u128 << k;
            x.extend([p - 1, p, p + 1]);
            if th || k == 32 {
                x.extend([p + 2, p + 9]);
            }
        }
    }
    x.sort();
    x.dedup();
    made.push((bits, x.leak()));
    made.last().unwrap().1
}
fn numbers(c: &mut Ch, th: bool) {
    let n = *c.pick(edges(66, th));
    // the way it is written, and a longer one of the same number
    let mut b = uleb(n);
    let pad = *c.pick(&[0, 1, 2, 8]);
    if pad > 0 {
        *b.last_mut().unwrap() |= 0x80;
        b.resize(b.len() + pad - 1, 0x80);
        b.push(0);
    }
    b.extend([0x11; 18]);
    let bytes = &b[..b.len() - *c.pick(&[0, 17, 18, 19])];
    let mut i = CompactThriftInputSlice::new(bytes);
    let mut s = bytes;
    macro_rules! calls {
        ($($f:ident($($a:expr),*) => $n:expr),* $(,)?) => { $( {
            let mut j = i.clone();
            let r = guard(|| j.$f($($a),*));
            if c.result(stringify!($f), &r, j.as_slice().len()) {
                let n: u64 = $n(r.unwrap().unwrap());
                c.num("is", n);
            }
            let mut t = s;
            let r = guard(|| CompactThriftInput::$f(&mut t $(, $a)*));
            if c.result(stringify!($f), &r, t.len()) {
                let n: u64 = $n(r.unwrap().unwrap());
                c.num("is", n);
            }
        } )* };
    }
    if pad == 0 {
        let mut last = 7;
        calls!(read_i16() => |n| n as u64, read_i32() => |n| n as u64, read_field_header(&mut last) => |n| n as u64, read_len() => len32);
        c.num("id", last as u64);
    }
    calls!(read_i64() => |n| n as u64, skip_integer() => |_| 0, skip_field(5) => |_| 0);
    let (_, _) = (&mut i, &mut s);
}
fn written(c: &mut Ch, th: bool) {
    let n = *c.pick(edges(63, th)) as i64;
    let n = if c.choose(2) == 0 { n } else { n.wrapping_neg() };
    let mut w = Vec::with_capacity(100);
    let r = guard(|| {
        w.write_i16(n as i16)?;
        w.write_i32(n as i32)?;
        w.write_i64(n)?;
        w.write_double(f64::from_bits(n as u64))?;
        w.write_double(n as f64)?;
        w.write_byte(n as u8)?;
        w.write_len((n as u64 & 0xFFFF_FFFF) as usize)?;
        // the id of a field after another one
        (n as i16).write_thrift_field(&mut w, n as i16, &mut 9)?;
        true.write_thrift_field(&mut w, (n >> 8) as i16, &mut (n as i16))
    });
    c.result("all", &r, 0);
    c.bytes("as", &w);
    let mut i = CompactThriftInputSlice::new(&w);
    let r = guard(|| Ok([i.read_i16()? as u64, i.read_i32()? as u64, i.read_i64()? as u64, i.read_double()?.to_bits(), i.read_double()?.to_bits(), i.read_byte()? as u64, i.read_len()? as u64]));
    if c.result("back", &r, i.as_slice().len()) {
        r.unwrap().unwrap().iter().for_each(|n| c.num("", *n));
    }
}
/// Lengths that are announced, and what follows.
fn lengths(c: &mut Ch, th: bool) {
    let mut len = uleb(*c.pick(edges(66, th)));
    if c.choose(2) == 1 {
        *len.last_mut().unwrap() |= 0x80;
        len.push(0);
    }
    let tail: &[u8] = if th { *c.pick(&[&b"\x15\x02\x00AB\x08\x02\x04\x15"[..], b"", b"\x55\x00\x01\x02\x03\x04\x05\x06\x07\x08"]) } else { b"\x15\x02\x00AB\x08\x02\x04\x15" };
    let list = |kind: u8| [&[0xF0 | kind][..], &len, tail].concat();
    let plain = [&len[..], tail].concat();
    match c.choose(8) {
        0 => {
            both::<Vec<u8>>(c, &plain);
            both::<String>(c, &plain);
            both::<Arc<str>>(c, &plain);
            both::<Small>(c, &[&[0x15, 0x02, 0x18][..], &plain].concat());
        }
        1 => both::<Vec<i32>>(c, &list(5)),
        2 => both::<Vec<bool>>(c, &list(1)),
        3 => both::<Vec<i8>>(c, &list(3)),
        4 => both::<Vec<f64>>(c, &list(7)),
        5 => {
            let b = list(*c.pick(&[1, 3, 5, 7, 8, 9, 11, 12]));
            let mut i = CompactThriftInputSlice::new(&b);
            let r = guard(|| read_collection_len_and_type(&mut i));
            if c.result("list", &r, i.as_slice().len()) {
                let (n, kind) = r.unwrap().unwrap();
                c.num("of", (n as u64) << 8 | kind as u64);
            }
            for kind in [9, 10] {
                skipped(c, kind, &b);
            }
        }
        6 => {
            let mut i = CompactThriftInputSlice::new(&plain);
            let r = guard(|| read_map_len_and_types(&mut i));
            if c.result("map", &r, i.as_slice().len()) {
                let (n, k, v) = r.unwrap().unwrap();
                c.num("of", (n as u64) << 16 | (k as u64) << 8 | v as u64);
            }
            skipped(c, 11, &plain);
        }
        _ => {
            skipped(c, 8, &plain);
            let mut i = CompactThriftInputSlice::new(&plain);
            let r = guard(|| i.skip_binary());
            c.result("binary", &r, i.as_slice().len());
        }
    }
}
fn skipped(c: &mut Ch, kind: u8, b: &[u8]) {
    let mut i = CompactThriftInputSlice::new(b);
    let r = guard(|| i.skip_field(kind));
    c.num("skip", kind as u64);
    c.result("slice", &r, i.as_slice().len());
    let mut s = b;
    let r = guard(|| CompactThriftInput::skip_field(&mut s, kind));
    c.result("stream", &r, s.len());
}
/// Numbers of any length to step over, anywhere in a buffer.
fn steps(c: &mut Ch, th: bool) {
    let p = c.choose(if th { 36 } else { 22 });
    let tail = *c.pick(if th { &[usize::MAX, 0, 1, 2, 7, 8, 9, 14, 15, 16, 17, 18][..] } else { &[usize::MAX, 0, 1, 14, 15, 16] });
    let (fill, end) = *c.pick(if th { &[(0x80, 0), (0xFF, 0x7F), (0x80, 0x7F), (0xFF, 0x01), (0xA5, 0x00)][..] } else { &[(0x80, 0), (0xFF, 0x7F)] });
    let mut b = vec![fill; p];
    if tail != usize::MAX {
        b.push(end);
        b.resize(p + 1 + tail, if tail % 2 == 0 { 0xFF } else { 0x00 });
    }
    let off = if th { c.choose(16) } else { p % 16 };
    let mut block = vec![0xAA; off];
    block.extend(&b);
    let b = &block[off..];
    skipped(c, 5, b);
    let list = [&[0x26][..], b].concat();
    skipped(c, 9, &list);
    let fields = [&[0x16][..], b].concat();
    skipped(c, 12, &fields);
}
fn borrowed(c: &mut Ch) {
    let b: &[u8] = *c.pick(&[&[0x03, 0x41, 0x42, 0x43, 0x02, 0x44, 0x45][..], &[0x00, 0x01, 0x41], &[0x02, 0xC3, 0xA9, 0x02, 0xC3, 0x28], &[0x7F, 0x41], &[0xF4, 0x8F, 0xBF, 0xBF]]);
    let at = c.choose(b.len() + 1);
    let mut i = CompactThriftInputSlice::new(&b[at..]);
    let mut t: Cow<str> = "before".into();
    let mut u: Cow<[u8]> = b"before"[..].into();
    let r = guard(|| t.fill_thrift(&mut i));
    if c.result("text", &r, i.as_slice().len()) {
        c.bytes("", t.as_bytes());
    }
    let r = guard(|| u.fill_thrift(&mut i));
    if c.result("bytes", &r, i.as_slice().len()) {
        c.bytes("", &u);
    }
}
/// Texts that are whole, or wrong in one place, from slices at any alignment.
fn texts(c: &mut Ch, th: bool) {
    let n = match (DEPTH.load(Ordering::Relaxed), th) {
        (0, true) => c.choose(67),
        (0, _) => *c.pick(&[0, 1, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 31, 32, 33]),
        _ => match c.choose(140) {
            n @ 0..130 => n,
            n => [255, 256, 511, 1023, 1024, 4095, 4096, 4097, 65535, 65537][n - 130],
        },
    };
    let off = if th { c.choose(8) } else { n % 8 };
    let what = c.choose(if th { 5 } else { 4 });
    let mut b = vec![0x41_u8; off];
    b.extend(uleb(n as u128));
    let start = b.len();
    b.extend((0..n).map(|k| b'a' + (k % 26) as u8));
    if what > 0 && n > 0 {
        let some = [0, 1, n / 3, n / 2, n.saturating_sub(5), n.saturating_sub(2), n - 1];
        let at = start + if th { place(c, n, th) } else { *c.pick(&some) % n };
        let with: &[u8] = [&[0x80][..], &[0xC3, 0xA9], &[0xFF], &[0xF0, 0x9F, 0x98, 0x80]][what - 1];
        let room = with.len().min(b.len() - at);
        b[at..at + room].copy_from_slice(&with[..room]);
    }
    let b = &b[off..];
    both::<String>(c, b);
    slice::<Arc<str>>(c, b);
    let mut i = CompactThriftInputSlice::new(b);
    let r = guard(|| i.read_string());
    if c.result("text", &r, i.as_slice().len()) {
        c.bytes("is", r.unwrap().unwrap().as_bytes());
    }
}
/// Lists of every length, whole or cut.
fn runs(c: &mut Ch, th: bool) {
    let n = if th { c.choose(if DEPTH.load(Ordering::Relaxed) > 0 { 300 } else { 70 }) } else { *c.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 14, 15, 16, 17, 33]) };
    let kind = c.choose(6);
    let mut b = if n < 15 { vec![(n << 4) as u8] } else { [&[0xF0][..], &uleb(n as u128)].concat() };
    b[0] |= [7, 1, 6, 3, 8, 12][kind];
    for k in 0..n {
        match kind {
            0 => b.extend(((k as f64 + 0.1) * if k % 3 == 0 { -1e300 } else { 1e-3 }).to_le_bytes()),
            1 => b.push(1 + (k % 3 == 0) as u8),
            2 => b.extend(uleb(0x0123_4567_89AB_CDEF >> (k % 60))),
            3 => b.push((k * 37 % 256) as u8),
            4 => b.extend([&[(k % 100) as u8][..], &vec![b'a' + (k % 26) as u8; k % 100]].concat()),
            _ => b.extend([0x15, (k % 100) as u8, 0x18, 0x01, b'a' + (k % 26) as u8, 0x00]),
        }
    }
    b.truncate(b.len() - *c.pick(if th { &[0, 1, 2, 7, 8, 9, 16][..] } else { &[0, 1, 8] }).min(&b.len()));
    match kind {
        0 => both::<Vec<f64>>(c, &b),
        1 => both::<Vec<bool>>(c, &b),
        2 => both::<Vec<i64>>(c, &b),
        3 => both::<Vec<i8>>(c, &b),
        4 => both::<Vec<String>>(c, &b),
        _ => both::<Vec<Small>>(c, &b),
    }
    skipped(c, 9, &b);
}
/// Errors as a user sees them.
fn errors(c: &mut Ch) {
    let kinds: [&[u8]; 8] = [&[0x00], &[0x15, 0x02, 0x00], &[0x25, 0x02], &[0x15, 0x02, 0x15, 0x02], &[0x18], &[0x15, 0x02, 0x18, 0x01, 0xFF, 0x00], &[0x15, 0x02, 0x18, 0xFF, 0xFF, 0xFF, 0x7F], &[0x1D]];
    let b = *c.pick(&kinds);
    fn of<T: Value + Debug>(c: &mut Ch, b: &[u8]) {
        let r = guard(|| T::read_thrift(&mut CompactThriftInputSlice::new(b)));
        match &r {
            Ok(Ok(v)) => c.text(&format!("{v:?}")),
            Ok(Err(e)) => c.text(&format!("{e} {e:?}")),
            Err(()) => c.text("a panic"),
        }
    }
    of::<Small>(c, b);
    of::<Choice>(c, b);
    of::<Names>(c, b);
    of::<AllReq>(c, b);
}

fn metadata(c: &mut Ch, th: bool) {
    type M = compact_thrift_parquet::format::FileMetaData;
    let encs = corpus::PARQUET.iter().find(|x| x.0 == "FileMetaData").unwrap().1;
    if th {
        return value::<M>(c, encs, th);
    }
    let mut b = c.pick(encs).to_vec();
    let at = c.choose(6) * b.len() / 6;
    match c.choose(2) {
        0 => b.truncate(b.len() - at),
        _ => b[at] = 0x15,
    }
    slice::<M>(c, &b);
}

fn jobs(th: bool) -> Vec<Job> {
    let mut jobs = vec![];
    values(&mut jobs, th);
    let mut one = |name: &str, f: fn(&mut Ch, bool)| jobs.push(Job { name: name.into(), f: Box::new(move |c| f(c, th)) });
    one("numbers", numbers);
    one("written", written);
    one("lengths", lengths);
    one("steps", steps);
    one("texts", texts);
    one("runs", runs);
    one("borrowed", |c, _| borrowed(c));
    one("errors", |c, _| errors(c));
    one("parquet/footer", pq::footer);
    one("parquet/ranges", pq::ranges);
    one("parquet/chunks", pq::chunks);
    one("parquet/indexes", pq::indexes);
    one("parquet/encodings", pq::encodings);
    one("parquet/metadata", metadata);
    jobs
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tier = a.get(2).map_or("quick", |t| &t[..]);
    let th = tier != "quick";
    DEPTH.store(if tier == "deep" { 1 } else if tier == "deeper" { 2 } else { 0 }, Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
    let show = a[1] == "show";
    match a[1].as_str() {
        "list" => jobs(th).iter().for_each(|j| println!("JOB {}", j.name)),
        "run" | "show" => {
            for job in jobs(th).into_iter().filter(|j| a[3..].contains(&j.name)) {
                let mut c = Ch { show, digest: 0xCBF2_9CE4_8422_2325, ..Ch::default() };
                let mut execs = 0_u64;
                loop {
                    if show {
                        print!("{execs}: ");
                    }
                    (job.f)(&mut c);
                    if show {
                        println!();
                    }
                    execs += 1;
                    if !c.next() {
                        break;
                    }
                }
                if !show {
                    println!("DONE {execs} {} {:016x} {}", c.choices, c.digest, job.name);
                }
            }
        }
        _ => std::process::exit(2),
    }
}
