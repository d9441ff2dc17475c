//! R27: every call depends on nothing but its arguments. Histories of calls, calls made from inside other calls, and
//! calls in two threads at all interleavings of their steps; a step is what the library does between two calls of its
//! environment (a reader, a sink, an input, an output, a user's value type).
#[path = "../../kit.rs"]
#[allow(dead_code)]
mod kit;
#[path = "../../rt/src/defs.rs"]
#[allow(dead_code)]
mod rdefs;
#[path = "../../subject.rs"]
#[allow(dead_code)]
mod subject;

use compact_thrift_parquet::format::{ColumnChunk, ColumnIndex, FileMetaData, OffsetIndex, RowGroup};
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_chunk, read_page_index, EncodingSet};
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol, ThriftError};
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::nth;
use mc::hex;
use mc::ty::{encode, Def, Field, Idl, Ty, M};
use rdefs::*;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use subject::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

// ---- the environment, which is told about each step -------------------------------------------------------------------

type Hook<'h> = &'h dyn Fn();

struct Reader<'h> {
    b: &'static [u8],
    at: usize,
    piece: usize,
    hook: Hook<'h>,
    /// the call that panics
    last: usize,
}
impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        (self.hook)();
        assert!(self.last > 0, "as planned");
        self.last -= 1;
        let n = buf.len().min(self.piece).min(self.b.len() - self.at);
        buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
impl Seek for Reader<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        (self.hook)();
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.b.len() as i64 + d,
            SeekFrom::Current(d) => self.at as i64 + d,
        };
        if p < 0 || p > self.b.len() as i64 {
            return Err(ErrorKind::InvalidInput.into());
        }
        self.at = p as usize;
        Ok(p as u64)
    }
}
struct Sink<'h> {
    b: Vec<u8>,
    room: usize,
    hook: Hook<'h>,
    last: usize,
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        (self.hook)();
        assert!(self.last > 0, "as planned");
        self.last -= 1;
        let n = buf.len().min(self.room);
        self.room -= n;
        self.b.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// An input of the user's, with only what is required.
struct Own<'h> {
    b: &'static [u8],
    hook: Hook<'h>,
}
impl Own<'_> {
    fn take(&mut self, n: usize) -> Result<&'static [u8], ThriftError> {
        (self.hook)();
        if n > self.b.len() {
            return Err(ErrorKind::UnexpectedEof.into());
        }
        let (x, rest) = self.b.split_at(n);
        self.b = rest;
        Ok(x)
    }
}
impl CompactThriftInput<'static> for Own<'_> {
    fn read_byte(&mut self) -> Result<u8, ThriftError> {
        Ok(self.take(1)?[0])
    }
    fn read_double(&mut self) -> Result<f64, ThriftError> {
        Ok(f64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn read_binary(&mut self) -> Result<Cow<'static, [u8]>, ThriftError> {
        let n = self.read_len()?;
        if n > compact_thrift_runtime::MAX_BINARY_LEN {
            return Err(ThriftError::InvalidBinaryLen(n));
        }
        Ok(self.take(n)?.into())
    }
}

thread_local! {
    static USERS: Cell<Option<*const (dyn Fn() + 'static)>> = const { Cell::new(None) };
}
/// Tells the user's value types within f of the hook.
fn with_users<R>(hook: Hook, f: impl FnOnce() -> R) -> R {
    struct Back(Option<*const (dyn Fn() + 'static)>);
    impl Drop for Back {
        fn drop(&mut self) {
            USERS.with(|u| u.set(self.0));
        }
    }
    // Safety: taken back before the hook ends
    let h = unsafe { std::mem::transmute::<*const (dyn Fn() + '_), *const (dyn Fn() + 'static)>(hook as *const _) };
    let _back = Back(USERS.with(|u| u.replace(Some(h))));
    f()
}
fn users_step() {
    if let Some(h) = USERS.with(|u| u.get()) {
        // Safety: see above
        unsafe { (*h)() }
    }
}
/// A user's value type.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Noted(String);
impl<'i> CompactThriftProtocol<'i> for Noted {
    const FIELD_TYPE: u8 = 8;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        users_step();
        self.0 = input.read_string()?.into_owned();
        users_step();
        Ok(())
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        users_step();
        output.write_string(&self.0)?;
        users_step();
        Ok(())
    }
}
impl Subject for Noted {
    fn from_m(m: &M) -> Self {
        Noted(conv(m))
    }
    fn to_m(&self) -> M {
        self.0.to_m()
    }
}
compact_thrift_runtime::thrift! {
    struct Notes { 1: required Noted a; 2: optional list<Noted> b; 4: required string c; 5: optional Rc<Noted> d }
}
impl Subject for Notes {
    fn from_m(m: &M) -> Self {
        let M::Struct(f) = m else { return cannot(m) };
        Notes { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), d: conv(&f[3]) }
    }
    fn to_m(&self) -> M {
        M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m(), self.d.to_m()])
    }
}

// ---- the calls --------------------------------------------------------------------------------------------------------

/// What a call gives: the value or bytes, and how much of its input it took.
type Got = (Result<M, Er>, usize);
struct Done {
    got: Got,
    /// the value itself, to be looked at again later
    kept: Option<Box<dyn Fn() -> M>>,
}
struct Op {
    name: String,
    want: Got,
    f: Box<dyn Fn(Hook) -> Done + Send + Sync>,
    /// how often it calls its environment
    steps: usize,
}
impl Op {
    fn run(&self, hook: Hook) -> Done {
        let r = guard(|| with_users(hook, || (self.f)(hook)));
        r.unwrap_or_else(|p| Done { got: (Err(Er::Panic(if p.starts_with("as planned") { "as planned".into() } else { p })), 0), kept: None })
    }
    /// None if it went as it does by itself.
    fn wrong(&self, d: &Done) -> Option<String> {
        if d.got == self.want {
            return None;
        }
        Some(format!("{} gives {:?} instead of {:?}", self.name, d.got, self.want))
    }
    fn changed(&self, d: &Done) -> Option<String> {
        let now = d.kept.as_ref()?();
        if Ok(&now) == self.want.0.as_ref() {
            return None;
        }
        Some(format!("what {} gave, {:?}, has become {now:?}", self.name, self.want.0))
    }
}
fn got<T: Subject + 'static>(r: Result<(), ThriftError>, v: T, used: usize) -> Done {
    match r {
        Ok(()) => Done { got: (Ok(v.to_m()), used), kept: Some(Box::new(move || v.to_m())) },
        Err(e) => Done { got: (Err(e.into()), 0), kept: None },
    }
}
fn leak(b: &[u8]) -> &'static [u8] {
    Box::leak(b.to_vec().into_boxed_slice())
}

#[derive(Default)]
struct Ops(Vec<Op>);
impl Ops {
    fn add(&mut self, name: String, want: Got, f: impl Fn(Hook) -> Done + Send + Sync + 'static) {
        self.0.push(Op { name, want, f: Box::new(f), steps: 0 });
    }
    /// Reads bytes with a known result in every way.
    fn reads<T: Subject + Default + CompactThriftProtocol<'static> + 'static>(&mut self, name: &str, b: &[u8], want: Result<M, Er>) {
        let b = leak(b);
        let used = if want.is_ok() { b.len() } else { 0 };
        let name = |how: &str| format!("{name} {} read from {how}", hex(&b[..b.len().min(24)]));
        self.add(name("a slice"), (want.clone(), used), move |_| {
            let mut v = T::default();
            let mut i = CompactThriftInputSlice::new(b);
            let r = v.fill_thrift(&mut i);
            got(r, v, b.len() - i.as_slice().len())
        });
        self.add(name("a slice of a buffer used for others too"), (want.clone(), used), move |_| {
            thread_local!(static BUFFER: RefCell<Option<Box<[u8; 4096]>>> = const { RefCell::new(None) });
            // taken while in use; from within it, another one
            let mut own = BUFFER.with(|x| x.borrow_mut().take()).unwrap_or_else(|| Box::new([0; 4096]));
            own[..b.len()].copy_from_slice(b);
            // Safety: what may refer to it is dropped before it is written again
            let all: &'static [u8] = unsafe { std::slice::from_raw_parts(own.as_ptr(), b.len()) };
            let mut v = T::default();
            let mut i = CompactThriftInputSlice::new(all);
            let r = v.fill_thrift(&mut i);
            let mut d = got(r, v, all.len() - i.as_slice().len());
            d.kept = None;
            BUFFER.with(|x| *x.borrow_mut() = Some(own));
            d
        });
        for piece in [usize::MAX, 2] {
            self.add(name(if piece == 2 { "a stream in pieces" } else { "a stream" }), (want.clone(), used), move |hook| {
                let mut v = T::default();
                let mut r = Reader { b, at: 0, piece, hook, last: usize::MAX };
                let x = v.fill_thrift(&mut r);
                got(x, v, r.at)
            });
        }
        self.add(name("a user's input"), (want, used), move |hook| {
            let mut v = T::default();
            let mut i = Own { b, hook };
            let r = v.fill_thrift(&mut i);
            got(r, v, b.len() - i.b.len())
        });
    }
    /// Everything that can be done with a type's value.
    fn all<T: Subject + Default + CompactThriftProtocol<'static> + 'static>(&mut self, name: &'static str, ty: &Ty, k: usize) {
        let m = nth(ty, k);
        let b = leak(&encode(ty, &m));
        self.reads::<T>(name, b, Ok(m.clone()));
        if b.len() > 1 {
            self.reads::<T>(name, &b[..b.len() / 2], Err(EOF));
        }
        let w = m.clone();
        self.add(format!("{name} {} written", hex(&b[..b.len().min(24)])), (Ok(M::Bin(b.to_vec())), b.len()), move |hook| {
            let mut s = Sink { b: vec![], room: usize::MAX, hook, last: usize::MAX };
            match T::from_m(&w).write_thrift(&mut s) {
                Ok(()) => Done { got: (Ok(M::Bin(s.b.clone())), s.b.len()), kept: None },
                Err(e) => Done { got: (Err(e.into()), 0), kept: None },
            }
        });
        let w = m.clone();
        let room = b.len() / 2;
        self.add(format!("{name} {} written into {room} bytes", hex(&b[..b.len().min(24)])), (Err(Er::Io(ErrorKind::WriteZero)), 0), move |hook| {
            let mut s = Sink { b: vec![], room, hook, last: usize::MAX };
            Done { got: (T::from_m(&w).write_thrift(&mut s).map(|_| M::None).map_err(Er::from), 0), kept: None }
        });
        for last in [0, 2] {
            self.add(format!("{name} {} read from a stream that panics at call {last}", hex(&b[..b.len().min(24)])), if b.len() > last { (Err(Er::Panic("as planned".into())), 0) } else { (Ok(m.clone()), b.len()) }, move |hook| {
                let mut v = T::default();
                let mut r = Reader { b, at: 0, piece: 1, hook, last };
                let x = v.fill_thrift(&mut r);
                got(x, v, r.at)
            });
        }
        let w = m.clone();
        self.add(format!("{name} {} written into a sink that panics", hex(&b[..b.len().min(24)])), (Err(Er::Panic("as planned".into())), 0), move |hook| {
            let mut s = Sink { b: vec![], room: usize::MAX, hook, last: 0 };
            Done { got: (T::from_m(&w).write_thrift(&mut s).map(|_| M::None).map_err(Er::from), 0), kept: None }
        });
        let t = ty.wire();
        if t != 2 {
            self.add(format!("{name} {} skipped in a slice", hex(&b[..b.len().min(24)])), (Ok(M::None), b.len()), move |_| {
                let mut i = CompactThriftInputSlice::new(b);
                let r = i.skip_field(t);
                Done { got: (r.map(|_| M::None).map_err(Er::from), b.len() - i.as_slice().len()), kept: None }
            });
            self.add(format!("{name} {} skipped in a stream", hex(&b[..b.len().min(24)])), (Ok(M::None), b.len()), move |hook| {
                let mut r = Reader { b, at: 0, piece: usize::MAX, hook, last: usize::MAX };
                let x = r.skip_field(t);
                Done { got: (x.map(|_| M::None).map_err(Er::from), r.at), kept: None }
            });
        }
    }
}

/// A file whose contents vary with x, and whose metadata is longer by some bytes; the indexes are at the same place.
fn file(x: u8, longer: usize) -> Vec<u8> {
    let mut f = b"PAR1".to_vec();
    // offset index, column index, metadata
    f.extend([0x19, 0x1C, 0x16, 0x08 + x, 0x15, 0x14, 0x16, 0x00, 0x00, 0x00]);
    f.extend([0x19, 0x11, 0x02, 0x19, 0x18, 0x01, 0x41 + x, 0x19, 0x18, 0x01, 0x42, 0x15, 0x02, 0x00]);
    let mut m = vec![0x15, 0x02 + x, 0x19, 0x0C, 0x16, 0x00, 0x19, 0x0C];
    // padding: unknown fields
    for _ in 0..longer {
        m.extend([0x11; 1]);
    }
    m.push(0);
    f.extend(&m);
    f.extend((m.len() as u32).to_le_bytes());
    f.extend(b"PAR1");
    f
}
fn footer(b: Vec<u8>, want: Result<Vec<u8>, &'static str>, ops: &mut Ops) {
    let b = leak(&b);
    let name = format!("the footer of a file of {} bytes", b.len());
    let want = want.map(M::Bin).map_err(|e| Er::Other(e.into()));
    ops.add(name, (want, 0), move |hook| {
        let mut r = Reader { b, at: 0, piece: 5.max(b.len() / 6), hook, last: usize::MAX };
        let x = get_metadata_chunk(&mut r).map(M::Bin).map_err(|e| Er::Other(format!("{e:?}").chars().take_while(|c| c.is_alphabetic()).collect()));
        Done { got: (x, 0), kept: None }
    });
}

fn with_index() -> FileMetaData {
    let cc = ColumnChunk { offset_index_offset: Some(4), offset_index_length: Some(10), column_index_offset: Some(14), column_index_length: Some(14), ..Default::default() };
    FileMetaData { row_groups: vec![RowGroup { columns: vec![cc], ..Default::default() }], ..Default::default() }
}
fn shown(x: &[Vec<Option<(OffsetIndex, ColumnIndex)>>]) -> M {
    let (offsets, columns) = x[0][0].as_ref().expect("an index");
    M::Str(format!("{} A{:?}", offsets.page_locations[0].offset, columns.min_values[0][0]).into())
}

fn ops() -> &'static [Op] {
    static OPS: OnceLock<Vec<Op>> = OnceLock::new();
    OPS.get_or_init(|| {
        mc::explore::install_hook();
        let idl = Idl::parse(IDL);
        let d = |n: &str| idl.def(n);
        let l = Ty::list;
        let mut o = Ops::default();
        o.all::<String>("String", &Ty::Str, 1);
        o.all::<Cow<'static, str>>("Cow<str>", &Ty::Str, 1);
        o.all::<Cow<'static, str>>("Cow<str>", &Ty::Str, 2);
        o.all::<Cow<'static, [u8]>>("Cow<[u8]>", &Ty::Bin, 2);
        o.all::<Vec<Cow<'static, str>>>("Vec<Cow<str>>", &l(Ty::Str), 2);
        o.all::<Rc<str>>("Rc<str>", &Ty::Str, 1);
        o.all::<Arc<str>>("Arc<str>", &Ty::Str, 2);
        o.all::<Vec<u8>>("Vec<u8>", &Ty::Bin, 1);
        o.all::<i64>("i64", &Ty::I64, 2);
        o.all::<f64>("f64", &Ty::F64, 1);
        o.all::<Vec<bool>>("Vec<bool>", &l(Ty::Bool), 1);
        o.all::<Vec<Vec<i32>>>("Vec<Vec<i32>>", &l(l(Ty::I32)), 2);
        o.all::<Choice>("Choice", &d("Choice"), 0);
        o.all::<Choice>("Choice", &d("Choice"), 1);
        o.all::<Small>("Small", &d("Small"), 1);
        o.all::<Mixed>("Mixed", &d("Mixed"), 1);
        o.all::<ReqThree>("ReqThree", &d("ReqThree"), 1);
        o.all::<WrapOpt>("WrapOpt", &d("WrapOpt"), 1);
        let noted = || Ty::Str;
        let notes = Ty::Struct(Arc::new(Def {
            name: "Notes".into(),
            fields: [(1, "a", true, noted()), (2, "b", false, l(noted())), (4, "c", true, Ty::Str), (5, "d", false, noted())]
                .into_iter()
                .map(|(id, n, required, ty)| Field { id, name: n.into(), required, ty })
                .collect(),
        }));
        o.all::<Notes>("Notes", &notes, 1);
        o.all::<Vec<Noted>>("Vec<Noted>", &l(noted()), 2);
        o.reads::<String>("String", b"\x02\xc3\x28", Err(Er::Utf8));
        o.reads::<Vec<i32>>("Vec<i32>", b"\x28\x01a\x01b", Err(Er::Type));
        o.reads::<Mixed>("Mixed", b"\x00", Err(Er::Missing("Mixed::a".into())));
        o.reads::<AllOpt>("AllOpt", b"\x11\x01\x02\x00", Err(Er::Dup));
        o.reads::<Vec<u8>>("Vec<u8>", b"\x81\x80\x80\x08", Err(Er::BinLen));
        o.reads::<Vec<i32>>("Vec<i32>", b"\xf5\x81\xad\xe2\x04", Err(Er::CollLen));
        // ends long before what is announced
        o.reads::<Vec<i8>>("Vec<i8>", b"\xf3\xff\xac\xe2\x04\x01", Err(EOF));
        o.reads::<Vec<bool>>("Vec<bool>", b"\xf1\xff\xac\xe2\x04\x01\x01", Err(EOF));
        o.reads::<Vec<u8>>("Vec<u8>", b"\xff\xff\xff\x07\x01", Err(EOF));
        o.reads::<String>("String", b"\xff\xff\xff\x07\x01", Err(EOF));
        o.reads::<Choice>("Choice", b"\x00", Err(Er::Type));
        o.reads::<Choice>("Choice", b"\x15\x02\x01", Err(Er::Stop));
        o.reads::<Choice>("Choice", b"\xe5\x02\x00", Err(Er::Missing("Choice".into())));
        o.reads::<EncSet>("EncodingSet", b"\x35\x00\x04\x06", Ok(M::List(vec![M::I32(0), M::I32(2), M::I32(3)])));
        for (x, longer) in [(2, 0), (4, 300), (6, 70_000)] {
            let f = file(x, longer);
            let n = f.len();
            footer(f.clone(), Ok(f[28..n - 8].to_vec()), &mut o);
        }
        let f = file(0, 0);
        let n = f.len();
        footer(f.clone(), Ok(f[n - 17..n - 8].to_vec()), &mut o);
        footer(f[..n - 1].to_vec(), Err("InvalidMagic"), &mut o);
        footer([&b"PAR1"[..], &100_u32.to_le_bytes(), b"PAR1"].concat(), Err("Io"), &mut o);
        for x in [0, 2, 4] {
            let f = leak(&file(x, 0));
            let index = M::Str(format!("{} A{:?}", 4 + x / 2, 0x41 + x).into());
            o.add(format!("the page index of file {x}"), (Ok(M::List(vec![M::Bin(f[4..28].to_vec()), index.clone()])), 4), move |hook| {
                let md = with_index();
                let mut r = Reader { b: f, at: 0, piece: 7, hook, last: usize::MAX };
                let (b, range) = get_page_index_chunk(&mut r, &md).expect("a chunk").expect("a range");
                hook();
                let x = read_page_index(&b, range.start, &md).expect("indexes");
                Done { got: (Ok(M::List(vec![M::Bin(b), shown(&x)])), range.start), kept: None }
            });
            // from a chunk which is at the same place for all of them
            o.add(format!("the page index of file {x} in a buffer used for others too"), (Ok(index), 0), move |_| {
                thread_local!(static BUFFER: RefCell<[u8; 24]> = const { RefCell::new([0; 24]) });
                BUFFER.with(|b| {
                    let mut b = b.borrow_mut();
                    b.copy_from_slice(&f[4..28]);
                    let x = read_page_index(&*b, 4, &with_index()).expect("indexes");
                    Done { got: (Ok(shown(&x)), 0), kept: None }
                })
            });
            if x == 0 {
                o.add("a page index beyond the file".into(), (Err(Er::Other("InvalidOffset".into())), 0), move |hook| {
                    let md = with_index();
                    let mut r = Reader { b: &f[..20], at: 0, piece: 7, hook, last: usize::MAX };
                    let e = get_page_index_chunk(&mut r, &md).expect_err("too short");
                    Done { got: (Err(Er::Other(format!("{e:?}"))), 0), kept: None }
                });
                o.add("a page index whose reader panics".into(), (Err(Er::Panic("as planned".into())), 0), move |hook| {
                    let mut r = Reader { b: f, at: 0, piece: 7, hook, last: 2 };
                    let _ = get_page_index_chunk(&mut r, &with_index());
                    Done { got: (Ok(M::None), 0), kept: None }
                });
            }
        }
        for op in &mut o.0 {
            let n = Cell::new(0);
            op.run(&|| n.set(n.get() + 1));
            op.steps = n.get();
        }
        o.0
    })
}
#[derive(Default)]
struct EncSet(EncodingSet);
impl CompactThriftProtocol<'static> for EncSet {
    const FIELD_TYPE: u8 = 9;
    fn fill_thrift<T: CompactThriftInput<'static>>(&mut self, input: &mut T) -> Result<(), ThriftError> {
        self.0.fill_thrift(input)
    }
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
        self.0.write_thrift(output)
    }
}
impl Subject for EncSet {
    fn from_m(m: &M) -> Self {
        cannot(m)
    }
    fn to_m(&self) -> M {
        M::List(self.0.iter().map(|e| M::I32(e.0)).collect())
    }
}

// ---- one after the other ----------------------------------------------------------------------------------------------

/// In a thread of its own, so that nothing is left from before.
fn fresh<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().expect("the thread"))
}
fn history(c: &mut Ctx, sequence: &[&Op]) {
    c.states_n(1);
    c.transitions_n(sequence.len() as u64);
    c.compared(sequence.len() as u64);
    let names = |k| sequence[..k].iter().map(|o: &&Op| &o.name).collect::<Vec<_>>();
    let bad = fresh(|| {
        let mut kept = vec![];
        for (k, op) in sequence.iter().enumerate() {
            let d = op.run(&|| ());
            if let Some(w) = op.wrong(&d) {
                return Some(format!("after {:?}: {w}", names(k)));
            }
            kept.push(d);
        }
        sequence.iter().zip(&kept).find_map(|(op, d)| Some(format!("after {:?}: {}", names(sequence.len()), op.changed(d)?)))
    });
    if let Some(w) = bad {
        c.fail(w);
    }
    c.sample(|| format!("one after the other: {:?}", names(sequence.len())));
    c.outcome("each as by itself");
}
/// A call very often, then others.
fn often(c: &mut Ctx, n: usize) {
    let all = ops();
    let a = c.pick(all);
    let bad = fresh(|| {
        let first = a.run(&|| ());
        for k in 0..n {
            let d = a.run(&|| ());
            if let Some(w) = a.wrong(&d).or_else(|| a.changed(&d)) {
                return Some(format!("after {k} times the same: {w}"));
            }
        }
        all.iter().find_map(|b| {
            let d = b.run(&|| ());
            b.wrong(&d).or_else(|| a.changed(&first)).map(|w| format!("after {n} times {}, and the calls before in the list: {w}", a.name))
        })
    });
    if let Some(w) = bad {
        c.fail(w);
    }
    c.states_n(n as u64);
    c.transitions_n(n as u64);
    c.compared((n + all.len()) as u64);
    c.outcome("as often as wanted");
}

// ---- one inside the other ---------------------------------------------------------------------------------------------

/// Runs a; at its given step, runs the rest in the same manner.
fn nest(sequence: &[(&Op, usize)], bad: &RefCell<Option<String>>) {
    let Some(((op, at), inner)) = sequence.split_first() else { return };
    let step = Cell::new(0);
    let d = op.run(&|| {
        let k = step.replace(step.get() + 1);
        if k == *at {
            // what it does to the user's types of the outer call is undone there
            nest(inner, bad);
        }
    });
    if let Some(w) = op.wrong(&d).or_else(|| op.changed(&d)) {
        bad.borrow_mut().get_or_insert(w);
    }
}
/// Each of the last calls inside the others.
fn nested(c: &mut Ctx, outer: &[(&Op, usize)], last: &[&Op]) {
    c.states_n(last.len() as u64);
    c.transitions_n((last.len() * (outer.len() + 1)) as u64);
    c.compared((last.len() * (outer.len() + 1)) as u64);
    let named = |s: &[(&Op, usize)]| s.iter().map(|(o, k)| format!("{} at step {k}", o.name)).collect::<Vec<_>>();
    let bad = fresh(|| {
        last.iter().find_map(|l| {
            let s = [outer, &[(*l, 0)]].concat();
            let bad = RefCell::new(None);
            nest(&s, &bad);
            Some(format!("one inside the other {:?} (in a group from {:?}): {}", named(&s), last[0].name, bad.into_inner()?))
        })
    });
    if let Some(w) = bad {
        c.fail(w);
    }
    c.sample(|| format!("one inside the other: {:?}, {:?}", named(outer), last[0].name));
    c.outcome("nested, each as by itself");
}

// ---- at the same time -------------------------------------------------------------------------------------------------

struct Sched {
    /// whose turn it is: a thread's, or 2 for the scheduler; which threads have ended
    st: Mutex<(usize, [bool; 2])>,
    cv: [Condvar; 3],
}
impl Sched {
    fn give(&self, from: usize, to: usize, ended: bool) {
        let mut s = self.st.lock().unwrap();
        if ended {
            s.1[from] = true;
        }
        s.0 = to;
        self.cv[to].notify_one();
    }
    fn wait(&self, me: usize) {
        let mut s = self.st.lock().unwrap();
        while s.0 != me {
            s = self.cv[me].wait(s).unwrap();
        }
    }
}
fn at_once(c: &mut Ctx, a: &'static Op, b: &'static Op) {
    let sched = Sched { st: Mutex::new((2, [false; 2])), cv: Default::default() };
    let s = &sched;
    let mut order = vec![];
    let results = std::thread::scope(|scope| {
        let threads = [(0, a), (1, b)].map(|(me, op)| {
            scope.spawn(move || {
                s.wait(me);
                let d = op.run(&|| {
                    s.give(me, 2, false);
                    s.wait(me);
                });
                // others go on before it is looked at again
                s.give(me, 2, false);
                s.wait(me);
                let r = op.wrong(&d).or_else(|| op.changed(&d));
                drop(d);
                s.give(me, 2, true);
                r
            })
        });
        let mut turn = usize::MAX;
        loop {
            let ended = s.st.lock().unwrap().1;
            let next = match ended {
                [true, true] => break,
                [true, false] => 1,
                [false, true] => 0,
                // the first and every change of the running thread are choices
                _ if turn > 1 => c.choose(2),
                _ if c.dev(2) == 1 => 1 - turn,
                _ => turn,
            };
            turn = next;
            order.push(turn as u8);
            s.give(2, turn, false);
            s.wait(2);
        }
        threads.map(|t| t.join().expect("the thread"))
    });
    c.states_n(1);
    c.transitions_n(order.len() as u64);
    c.compared(2);
    for r in results.into_iter().flatten() {
        c.fail(format!("{} and {} in two threads, steps in the order {order:?}: {r}", a.name, b.name));
    }
    c.sample(|| format!("{} and {}, steps in the order {order:?}", a.name, b.name));
    c.outcome("interleaved, each as by itself");
}

fn r27(th: bool) -> Plan<'static> {
    let all = ops();
    let n = all.len();
    // one call by itself, before anything else
    let some: &'static [&'static Op] = Box::leak(all.iter().enumerate().filter(|(k, _)| k % 7 == 0).map(|x| x.1).collect::<Vec<_>>().into_boxed_slice());
    let stepping: &'static [&'static Op] = Box::leak(all.iter().filter(|o| o.steps > 0).collect::<Vec<_>>().into_boxed_slice());
    let refs: &'static [&'static Op] = Box::leak(all.iter().collect::<Vec<_>>().into_boxed_slice());
    let groups: &'static [&'static [&'static Op]] = Box::leak(refs.chunks(16).collect::<Vec<_>>().into_boxed_slice());
    let most = if th { 40 } else { 14 };
    let short: &'static [&'static Op] = Box::leak(stepping.iter().enumerate().filter(|(k, o)| (2..=most).contains(&o.steps) && (th || k % 4 == 0)).map(|x| *x.1).collect::<Vec<_>>().into_boxed_slice());
    let mut jobs = vec![];
    jobs.push(Job::new("pairs", 0, |c| {
        let s = [c.pick(all), c.pick(all)];
        history(c, &s);
    }));
    jobs.push(Job::new("histories", 0, move |c| {
        let s: Vec<&Op> = (0..if th { 4 } else { 3 }).map(|_| *c.pick(some)).collect();
        history(c, &s);
    }));
    if th {
        jobs.push(Job::new("triples", 0, |c| {
            let s = [c.pick(all), c.pick(all), c.pick(all)];
            history(c, &s);
        }));
    }
    jobs.push(Job::new("often", 0, move |c| often(c, if th { 70_000 } else { 300 })));
    jobs.push(Job::new("nested", 0, move |c| {
        let a = *c.pick(stepping);
        let k = c.choose(a.steps);
        let last = *c.pick(groups);
        nested(c, &[(a, k)], last);
    }));
    jobs.push(Job::new("nested twice", 0, move |c| {
        let some = if th { stepping } else { &short[..8.min(short.len())] };
        let a = *c.pick(if th { short } else { some });
        let i = c.choose(a.steps);
        let b = *c.pick(some);
        let j = c.choose(b.steps);
        nested(c, &[(a, i), (b, j)], some);
    }));
    jobs.push(Job::new("threads", if th { 3 } else { 2 }, move |c| {
        let a = *c.pick(short);
        let b = *c.pick(short);
        at_once(c, a, b);
    }));
    let mut p = Plan::new(jobs, &[]);
    p.bounds = vec![
        format!("{n} calls: 20 types read from a slice, a stream, a stream in pieces and a user's input, complete and cut; written, into a sink with too little room, skipped; readers and sinks that panic; thirteen kinds of invalid input; encoding sets, footers and page indexes"),
        format!("all pairs of them; all sequences of {} of {} of them{}; each {} times and all others after that; every value looked at again at the end", if th { 4 } else { 3 }, some.len(), if th { ", all triples" } else { "" }, if th { 70_000 } else { 300 }),
        format!("each call inside each of {} calls at every step of its environment (reader, sink, input, user's value type), and two levels of that", stepping.len()),
        format!("all pairs of {} calls in two threads, all interleavings of their steps with at most {} changes of the running thread", short.len(), if th { 3 } else { 2 }),
    ];
    p
}

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "R27" => r27(th),
                _ => return None,
            })
        },
        |_| 2,
    )
}
