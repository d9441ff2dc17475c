//! R28: values of the generated types are ordinary values. R29: what can be borrowed is borrowed.
use crate::defs::*;
use crate::env::env;
use crate::kit::*;
use crate::subject::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use mc::alloc::measure;
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::{self, nth};
use mc::hex;
use mc::ty::M;
use mc::wire::{self, W};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

/// Equality by the fields; doubles compare as doubles do.
fn same(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::F64(x), M::F64(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (M::List(x), M::List(y)) | (M::Struct(x), M::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (M::Union(i, x), M::Union(j, y)) => i == j && same(x, y),
        _ => a == b,
    }
}
fn nan(a: &M) -> bool {
    match a {
        M::F64(x) => f64::from_bits(*x).is_nan(),
        M::List(x) | M::Struct(x) => x.iter().any(nan),
        M::Union(_, x) => nan(x),
        _ => false,
    }
}

fn two(c: &mut Ctx, v: &Vt, a: &M, b: &M) {
    c.state(format!("{} {a:?} {b:?}", v.name).as_bytes());
    c.sample(|| format!("{}: {} and {}", v.name, brief(a), brief(b)));
    c.compared(4);
    let what = || format!("{}: {} and {}", v.name, brief(a), brief(b));
    let p = match v.pair(a, b) {
        Ok(p) => p,
        Err(e) => c.fail(format!("{}: comparing, cloning or showing them panics: {e}", what())),
    };
    let eq = same(a, b);
    c.check(p.eq == [eq; 2], || format!("{}: == is {:?}", what(), p.eq));
    c.check(p.ne == [!eq; 2], || format!("{}: != is {:?}", what(), p.ne));
    for (k, x) in p.clones.iter().enumerate() {
        c.check(x == a, || format!("{}: {} the first gives {}", what(), ["cloning", "cloning over the second"][k], brief(x)));
    }
    c.check(p.left == *a, || format!("{}: cloning and dropping the clone leaves {}", what(), brief(&p.left)));
    // unlike values look different
    if !eq && !nan(a) && !nan(b) {
        c.check(p.shown[0][0] != p.shown[1][0] && p.shown[0][1] != p.shown[1][1], || format!("{}: both are shown as {}", what(), p.shown[0][0]));
    }
    if a == b {
        c.check(p.shown[0] == p.shown[1], || format!("{}: shown as {} and as {}", what(), p.shown[0][0], p.shown[1][0]));
    }
    c.outcome(if eq { "equal" } else { "different" });
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn enums<T: From<i32> + Copy + Ord + Hash + std::fmt::Debug>(c: &mut Ctx, name: &str, num: fn(T) -> i32) {
    let ns = numbers();
    let (x, y) = (*c.pick(&ns), *c.pick(&ns));
    let (a, b) = (T::from(x), T::from(y));
    c.state(format!("{name} {x} {y}").as_bytes());
    c.compared(8);
    let what = || format!("{name}({x}) and {name}({y})");
    let o: Ordering = x.cmp(&y);
    c.check(a.cmp(&b) == o && a.partial_cmp(&b) == Some(o), || format!("{}: ordered as {:?} and {:?}", what(), a.cmp(&b), a.partial_cmp(&b)));
    c.check((a == b) == (x == y) && (a != b) == (x != y), || format!("{}: == is {}", what(), a == b));
    c.check([a < b, a <= b, a > b, a >= b] == [x < y, x <= y, x > y, x >= y], || format!("{}: <, <=, >, >= are {:?}", what(), [a < b, a <= b, a > b, a >= b]));
    c.check([num(a.max(b)), num(a.min(b))] == [x.max(y), x.min(y)], || format!("{}: the larger is {}", what(), num(a.max(b))));
    c.check((x == y) <= (hash(&a) == hash(&b)), || format!("{}: equal, with different hashes", what()));
    let n = 1 + (x != y) as usize;
    c.check(HashSet::from([a, b]).len() == n && BTreeSet::from([a, b]).len() == n, || format!("{}: a set of them has not {n} elements", what()));
    let copy = a;
    c.check(num(copy) == x && num(a) == x, || format!("{}: a copy is {}", what(), num(copy)));
    c.check((format!("{a:?}") == format!("{b:?}")) == (x == y), || format!("{}: shown as {a:?} and {b:?}", what()));
    c.outcome("ordered by number");
}
fn numbers() -> Vec<i32> {
    let mut v: Vec<i32> = gen::i64_edges(32).into_iter().map(|x| x as i32).collect();
    v.extend([7, -5, 3]);
    v.sort();
    v.dedup();
    v
}

pub fn r28(th: bool) -> Plan<'static> {
    let (budget, max) = if th { (2e6, 4) } else { (1e5, 3) };
    let mut jobs = vec![];
    for v in &env().all {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}", v.name, if sparse { "sparse" } else { "full" }), bound(&v.ty, 0.0, budget, max), move |c| {
                // both deviate from the same value
                let a = value(c, &v.ty, sparse);
                let b = value(c, &v.ty, sparse);
                two(c, v, &a, &b);
            }));
        }
        jobs.push(Job::new(format!("{}/others", v.name), 0, move |c| {
            let d = if v.option { nth(&v.ty, 9) } else { v.ty.default() };
            let all = [nth(&v.ty, 0), nth(&v.ty, 1), nth(&v.ty, 2), d];
            let (a, b) = (c.pick(&all), c.pick(&all));
            two(c, v, a, b);
        }));
    }
    jobs.push(Job::new("Color", 0, |c| enums::<Color>(c, "Color", |x| x.0)));
    jobs.push(Job::new("Zero", 0, |c| enums::<Zero>(c, "Zero", |x| x.0)));
    Plan::new(jobs, &[
        if th { "all subject types: pairs of values with together at most K deviations (budget 2000000, K <= 4) from each base, and of 4 other values" } else { "all subject types: pairs of values with together at most K deviations (budget 100000, K <= 3) from each base, and of 4 other values" },
        "enums: all pairs of the 32-bit numbers around powers of two",
        "oracle: equality of the fields, doubles as IEEE numbers",
    ])
}

// ---- R29 --------------------------------------------------------------------------------------------------------------

/// Memory a call may need apart from what it hands out.
const SLACK: usize = 4096;

type Found = Result<Vec<(bool, usize, usize)>, ThriftError>;
/// One way to reach a borrowed text or binary: whether each is borrowed, where, and how long.
type Way = (&'static str, bool, fn(&[u8]) -> Found, fn(&[u8]) -> Found);
fn at<T: ?Sized + AsRef<[u8]> + ToOwned>(x: &Cow<T>) -> (bool, usize, usize) {
    let b: &[u8] = AsRef::<T>::as_ref(x).as_ref();
    (matches!(x, Cow::Borrowed(_)), b.as_ptr() as usize, b.len())
}
macro_rules! way {
    ($name:literal, $list:literal, |$b:ident| $f:expr, $g:expr) => {{
        fn f<'a>($b: &mut CompactThriftInputSlice<'a>) -> Result<Vec<Cow<'a, str>>, ThriftError> {
            $f
        }
        fn g<'a>($b: &mut CompactThriftInputSlice<'a>) -> Result<Vec<Cow<'a, [u8]>>, ThriftError> {
            $g
        }
        // the values outlive the input
        (
            $name,
            $list,
            |b: &[u8]| {
                let mut i = CompactThriftInputSlice::new(b);
                let r = f(&mut i);
                drop(i);
                r.map(|v| v.iter().map(at).collect())
            },
            |b: &[u8]| {
                let mut i = CompactThriftInputSlice::new(b);
                let r = g(&mut i);
                drop(i);
                r.map(|v| v.iter().map(at).collect())
            },
        )
    }};
}
fn ways() -> Vec<Way> {
    vec![
        way!("read_string and read_binary", false, |i| Ok(vec![i.read_string()?]), Ok(vec![i.read_binary()?])),
        way!("fill_thrift of a Cow", false, |i| { let mut v = Cow::Borrowed("old"); v.fill_thrift(i)?; Ok(vec![v]) }, { let mut v = Cow::Borrowed(&b"old"[..]); v.fill_thrift(i)?; Ok(vec![v]) }),
        way!("fill_thrift of an owned Cow", false, |i| { let mut v: Cow<str> = Cow::Owned("older".into()); v.fill_thrift(i)?; Ok(vec![v]) }, { let mut v: Cow<[u8]> = Cow::Owned(vec![0; 300]); v.fill_thrift(i)?; Ok(vec![v]) }),
        way!("fill_thrift_field of a Cow", false, |i| { let mut v = Cow::Borrowed("old"); v.fill_thrift_field(i, 8)?; Ok(vec![v]) }, { let mut v = Cow::Borrowed(&b"old"[..]); v.fill_thrift_field(i, 8)?; Ok(vec![v]) }),
        way!("read_thrift of a Cow<str>", false, |i| Ok(vec![<Cow<str>>::read_thrift(i)?]), { let mut v: Cow<[u8]> = Default::default(); v.fill_thrift(i)?; Ok(vec![v]) }),
        way!("an Option<Cow>", false, |i| { let mut v: Option<Cow<str>> = None; v.fill_thrift(i)?; Ok(v.into_iter().collect()) }, { let mut v: Option<Box<Cow<[u8]>>> = None; v.fill_thrift_field(i, 8)?; Ok(v.into_iter().map(|x| *x).collect()) }),
        way!("a Box<Cow>, an Rc<Cow>", false, |i| { let mut v: Box<Cow<str>> = Default::default(); v.fill_thrift(i)?; Ok(vec![*v]) }, { let mut v: Rc<Cow<[u8]>> = Default::default(); v.fill_thrift(i)?; Ok(vec![Rc::unwrap_or_clone(v)]) }),
        way!("an Arc<Cow>", false, |i| { let mut v: Arc<Cow<str>> = Default::default(); v.fill_thrift(i)?; Ok(vec![Arc::unwrap_or_clone(v)]) }, { let mut v: Arc<Cow<[u8]>> = Default::default(); v.fill_thrift(i)?; Ok(vec![Arc::unwrap_or_clone(v)]) }),
        way!("a Vec<Cow>", true, |i| { let mut v: Vec<Cow<str>> = Vec::new(); v.fill_thrift(i)?; Ok(v) }, { let mut v: Vec<Cow<[u8]>> = Vec::new(); v.fill_thrift(i)?; Ok(v) }),
    ]
}
fn lengths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if th { 3000 } else { 300 }).collect();
    v.extend([1023, 1024, 4095, 4096, 16383, 16384, 16385, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24]);
    v
}

fn borrowed(c: &mut Ctx, lens: &[usize], th: bool) {
    let all = ways();
    let way = c.pick(&all);
    let text = c.choose(2) == 0;
    let n = *c.pick(lens);
    let count = if way.1 { *c.pick(&[0, 1, 2, 14, 15, 40]) } else { 1 };
    if n > 70_000 && count > 2 && !th || n * count > 1 << 26 {
        return;
    }
    let pad = c.choose(2);
    let mut b = vec![0x55; pad];
    let from = b.len();
    let one = W::Bin(if text { gen::text(n) } else { gen::bytes(n) });
    let wire = if way.1 { W::List(wire::BIN, vec![one.clone(); count]) } else { one.clone() };
    b.extend(wire::canon(&wire));
    let own = wire::canon(&one).len();
    let end = b.len();
    b.extend([0, 0x7F]);
    c.state(format!("{} {text} {n} {count} {pad}", way.0).as_bytes());
    c.transitions_n(count as u64);
    c.compared(count as u64);
    let what = || format!("{} of {n} bytes {}", if text { "a text" } else { "a binary" }, way.0);
    let f = if text { way.2 } else { way.3 };
    let (r, used) = measure(1 << 36, || guard(|| f(&b[from..])));
    let found = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => c.fail(format!("{}: {e:?}", what())),
        Err(e) => c.fail(format!("{}: panic: {e}", what())),
    };
    c.check(found.len() == count, || format!("{}: {} instead of {count}", what(), found.len()));
    let start = b.as_ptr() as usize;
    for (k, x) in found.iter().enumerate() {
        let p = start + end - (count - k) * own + own - n;
        // an empty one is nowhere
        c.check(x.0 && x.2 == n && (x.1 == p || n == 0), || format!("{}: number {k} is {}, at {} for {} bytes; the payload is at {}", what(), if x.0 { "borrowed" } else { "owned" }, x.1.wrapping_sub(start), x.2, p - start));
    }
    let may = SLACK + count * 64;
    c.check(used.max_request <= may, || format!("{}: {} bytes of memory are requested", what(), used.max_request));
    c.outcome("borrowed");
}

fn big(c: &mut Ctx, n: usize) -> (u8, Vec<u8>) {
    let bin = W::Bin(vec![0x80; n]);
    let w = match c.choose(14) {
        0 => bin,
        1 => W::List(wire::BIN, vec![bin; 3]),
        2 => W::List(wire::BYTE, vec![W::Byte(1); n]),
        3 => W::List(wire::I64, vec![W::I64(-70000); n / 8]),
        4 => W::Map(wire::BIN, wire::BYTE, vec![(bin, W::Byte(1)); 2]),
        5 => W::Struct(vec![(1, bin.clone()), (2, bin)]),
        6 => W::List(wire::STRUCT, vec![W::Struct(vec![(1, W::Bool(true))]); n / 4]),
        7 => W::List(wire::LIST, vec![W::List(wire::BIN, vec![bin; 1]); 2]),
        // many small things
        8 => W::List(wire::BIN, vec![W::Bin(vec![]); n]),
        9 => W::List(wire::BIN, vec![W::Bin(b"text".to_vec()); n / 4]),
        10 => W::Map(wire::BIN, wire::BIN, (0..n / 4).map(|k| (W::Bin(k.to_le_bytes()[..3].to_vec()), W::Bin(vec![7]))).collect()),
        11 => W::List(wire::LIST, vec![W::List(wire::BIN, vec![W::Bin(vec![1]); 2]); n / 4]),
        12 => W::Struct((0..(n / 4).min(32_000)).map(|k| (k as i16, W::Bin(vec![1, 2]))).collect()),
        _ => W::Map(wire::I32, wire::LIST, (0..n / 8).map(|k| (W::I32(k as i64), W::List(wire::I64, vec![W::I64(0); 1]))).collect()),
    };
    (w.field_type(), wire::canon(&w))
}
fn skipped(c: &mut Ctx, t: u8, b: &[u8]) {
    c.state(b);
    c.compared(1);
    let mut i = CompactThriftInputSlice::new(b);
    let (r, used) = measure(1 << 36, || guard(|| i.skip_field(t)));
    let what = || format!("skipping the {} bytes {} of type {t}", b.len(), hex(&b[..b.len().min(40)]));
    c.check(matches!(r, Ok(Ok(()))), || format!("{}: {r:?}", what()));
    c.check(used.max_request <= SLACK && used.total <= 16 * SLACK, || format!("{}: requests {} bytes at once and {} in all", what(), used.max_request, used.total));
    c.outcome("skipped in place");
}

pub fn r29(th: bool) -> Plan<'static> {
    let lens: &'static [usize] = Box::leak(lengths(th).into_boxed_slice());
    let mut jobs = vec![];
    jobs.push(Job::new("borrowed", 0, move |c| borrowed(c, lens, th)));
    jobs.push(Job::new("skipped", 0, |c| {
        let all = gen::wire_catalogue();
        let w = c.pick(&all);
        if matches!(w, W::Bool(_)) {
            return;
        }
        skipped(c, w.field_type(), &wire::canon(w));
    }));
    jobs.push(Job::new("skipped, long", 0, move |c| {
        let n = *c.pick(if th { &[0usize, 100, 5000, 100_000, 1 << 20, 9_000_000][..] } else { &[0usize, 100, 5000, 100_000, 1 << 20] });
        let (t, b) = big(c, n);
        skipped(c, t, &b);
    }));
    for v in &env().all {
        jobs.push(Job::new(format!("skipped/{}", v.name), 0, move |c| {
            let k = c.choose(3);
            let b = mc::ty::encode(&v.ty, &nth(&v.ty, k));
            if v.ty.wire() != wire::BOOL {
                skipped(c, v.ty.wire(), &b);
            }
        }));
    }
    Plan::new(jobs, &[
        if th { "9 ways to read a borrowed text or binary of each length up to 3000, around powers of two and up to 16 MiB, lists of up to 40" } else { "9 ways to read a borrowed text or binary of each length up to 300, around powers of two and up to 16 MiB, lists of up to 40" },
        "skipping from a slice: every value of the wire catalogue, of all subject types, and 14 shapes of up to a million bytes; all requests for memory are measured",
    ])
}
