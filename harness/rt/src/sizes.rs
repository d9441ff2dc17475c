//! Long values: the same properties at the lengths where a length, an index or a buffer boundary could matter.
use crate::env::*;
use crate::kit::*;
use crate::subject::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice};
use mc::explore::{guard, Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{to_w, Ty, M};
use mc::wire::{self, W};
use std::cell::RefCell;
use std::io::{ErrorKind, Read, Write};

const MAX_BIN: usize = 16 << 20;

/// Every 2^k - 1, 2^k, 2^k + 1, every 10^k and its neighbours, up to max.
pub fn steps(min: usize, max: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 1..=24 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1, 3 * p / 2]);
    }
    for k in 1..8 {
        let p = 10usize.pow(k);
        v.extend([p - 1, p, p + 1]);
    }
    v.push(max);
    v.sort();
    v.dedup();
    v.retain(|n| (min..=max).contains(n));
    v
}
/// As `steps`, with every sum of two powers of two.
pub fn sums(min: usize, max: usize) -> Vec<usize> {
    let mut v = steps(min, max);
    for i in 0..=24 {
        for j in 0..i {
            v.extend([(1usize << i) + (1 << j), (1 << i) - (1 << j)]);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|n| (min..=max).contains(n));
    v
}
fn header(t: &Ty, n: usize, long: bool, pad: usize) -> Vec<u8> {
    if n < 15 && !long {
        return vec![(n as u8) << 4 | t.wire()];
    }
    let mut b = vec![0xF0 | t.wire()];
    wire::varint(&mut b, n as u64, pad);
    b
}
/// A list of n elements taken in turn from the first 7 values of the type, and its encoding.
fn long_list(t: &Ty, n: usize, pad: usize) -> (M, Vec<u8>) {
    let e: Vec<M> = (0..7).map(|k| nth(t, k)).collect();
    let w: Vec<Vec<u8>> = e.iter().map(|m| wire::canon(&to_w(t, m))).collect();
    let w: Vec<Vec<u8>> = if matches!(t, Ty::Bool) { e.iter().map(|m| vec![if *m == M::Bool(true) { 1 } else { 2 }]).collect() } else { w };
    let mut b = header(t, n, pad > 0, pad);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(e[i % 7].clone());
        b.extend_from_slice(&w[i % 7]);
    }
    (M::List(v), b)
}
fn long_value(ty: &Ty, n: usize, pad: usize) -> (M, Vec<u8>) {
    match ty {
        Ty::List(t) => long_list(t, n, pad),
        Ty::Bin | Ty::Str => {
            let s = if matches!(ty, Ty::Bin) { bytes(n) } else { text(n) };
            let mut b = vec![];
            wire::varint(&mut b, n as u64, pad);
            b.extend_from_slice(&s);
            (if matches!(ty, Ty::Bin) { M::Bin(s) } else { M::Str(s) }, b)
        }
        _ => panic!("long {ty:?}"),
    }
}
fn list_subjects() -> Vec<&'static Vt> {
    plain().filter(|v| v.group == "list" && v.name != "Vec<HugeElement>").collect()
}
fn text_like() -> Vec<&'static Vt> {
    env().all.iter().filter(|v| matches!(v.ty, Ty::Bin | Ty::Str)).collect()
}
fn small_list(v: &Vt) -> bool {
    matches!(v.name.as_str(), "Vec<bool>" | "Vec<i8>" | "Vec<i32>" | "Vec<i64>" | "Vec<Empty>")
}
fn max_list(v: &Vt, th: bool) -> usize {
    match (small_list(v), th) {
        (true, false) => (1 << 18) + 1,
        (true, true) => (1 << 21) + 1,
        (false, false) => (1 << 16) + 1,
        (false, true) => (1 << 18) + 1,
    }
}
fn shown(r: &Result<M, Er>) -> String {
    match r {
        Ok(M::List(x)) => format!("a list of {}", x.len()),
        Ok(M::Bin(x) | M::Str(x)) => format!("{} bytes", x.len()),
        r => brief(r),
    }
}
fn equal(c: &mut Ctx, v: &Vt, m: &M, b: &[u8], n: usize, what: &str) {
    let len = b.len();
    let mut b = b.to_vec();
    b.extend_from_slice(&[0x15, 0x80]);
    for (src, r, used) in both(v, &b) {
        c.compared(1);
        if r.as_ref() != Ok(m) || used != len {
            c.fail(format!("{}: {n} {what} ({}) read from a {src} give {} and consume {used} of {len} bytes", v.name, hex(&b), shown(&r)));
        }
    }
    c.states_n(1);
    c.cases(1);
    c.outcome("long values");
}

/// R01 and R02: what is written for long values reads back, and is what the protocol says.
pub fn round(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in list_subjects() {
        let ns = steps(0, max_list(v, th));
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (m, _) = long_value(&v.ty, n, 0);
            let b = written(c, v, &m);
            equal(c, v, &m, &b, n, "elements as written");
        }));
    }
    for v in text_like() {
        let ns = if th { sums(0, MAX_BIN) } else { steps(0, MAX_BIN) };
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (m, _) = long_value(&v.ty, n, 0);
            let b = written(c, v, &m);
            equal(c, v, &m, &b, n, "bytes as written");
        }));
    }
    // several values one after another in one buffer
    jobs.push(Job::new("consecutive", 0, move |c| {
        let vs = rep();
        let n = if th { 3 } else { 2 };
        let picks: Vec<(&Vt, M)> = (0..n)
            .map(|_| {
                let v = vs[c.choose(vs.len())];
                let k = c.choose(2);
                (v, nth(&v.ty, k))
            })
            .collect();
        let mut b = vec![];
        for (v, m) in &picks {
            b.extend(written(c, v, m));
        }
        c.state(&b);
        c.sample(|| format!("{} values one after another: {}", n, hex(&b)));
        let mut rest: &[u8] = &b;
        let mut pos = 0;
        for (v, m) in &picks {
            let (s, used) = v.read(&b[pos..]);
            let r = v.read_stream(&mut rest);
            c.compared(2);
            if s.as_ref() != Ok(m) || r.as_ref() != Ok(m) || b.len() - rest.len() != pos + used {
                c.fail(format!("{}: {} written after others in {} at {pos} reads as {} from the slice and {} from the stream, up to {} and {}", v.name, brief(m), hex(&b), brief(&s), brief(&r), pos + used, b.len() - rest.len()));
            }
            pos += used;
        }
        c.check(pos == b.len(), || format!("{} of {} bytes consumed", pos, b.len()));
        c.outcome("consecutive values");
    }));
    jobs
}
pub fn protocol(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in list_subjects().into_iter().chain(text_like()) {
        let max = if matches!(v.ty, Ty::List(_)) { max_list(v, th) } else { MAX_BIN };
        let ns = steps(0, max);
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (m, want) = long_value(&v.ty, n, 0);
            let b = written(c, v, &m);
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.outcome("long values");
            if b == want {
                return;
            }
            // another form of the same value
            let w = normal(to_w(&v.ty, &m));
            match wire::decode_all(&b, v.ty.wire(), true).map(normal) {
                Ok(x) if x == w => {}
                Ok(_) => c.fail(format!("{}: {n} elements are written as {} bytes which a decoder reads as another value ({})", v.name, b.len(), hex(&b))),
                Err(e) => c.fail(format!("{}: {n} elements are written as {} bytes which are not well-formed: {e}", v.name, b.len())),
            }
        }));
    }
    jobs
}
/// R03: long values in every form of their header.
pub fn forms(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in list_subjects().into_iter().chain(text_like()) {
        let max = if matches!(v.ty, Ty::List(_)) { max_list(v, th) } else { MAX_BIN };
        let ns = steps(0, max);
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let pad = *c.pick(&[0usize, 1, 5]);
            let (m, b) = long_value(&v.ty, n, pad);
            equal(c, v, &m, &b, n, "elements as sent");
        }));
    }
    jobs
}

/// Large wire values of length or count n.
fn large(kind: usize, n: usize) -> (u8, Vec<u8>) {
    let mut b = vec![];
    let t = match kind {
        0 => {
            wire::varint(&mut b, n as u64, 0);
            b.resize(b.len() + n, 0x80);
            8
        }
        1..=5 => {
            // list of bytes, bools, integers of two bytes, doubles, short binaries
            let (e, x): (Ty, &[u8]) = match kind {
                1 => (Ty::I8, &[0x83]),
                2 => (Ty::Bool, &[2]),
                3 => (Ty::I32, &[0x80, 0x01]),
                4 => (Ty::F64, &[1, 2, 3, 4, 0x85, 6, 7, 8]),
                _ => (Ty::Bin, &[2, 0xFF, 0]),
            };
            b = header(&e, n, false, 0);
            for _ in 0..n {
                b.extend_from_slice(x);
            }
            9
        }
        6 => {
            // set of structs
            b = header(&Ty::Struct(std::sync::Arc::new(mc::ty::Def { name: String::new(), fields: vec![] })), n, false, 0);
            for _ in 0..n {
                b.extend_from_slice(&[0x15, 0x80, 0x02, 0x00]);
            }
            10
        }
        7 => {
            wire::varint(&mut b, n as u64, 0);
            if n > 0 {
                b.push(0x83);
                for _ in 0..n {
                    b.extend_from_slice(&[1, b'k', 7]);
                }
            }
            11
        }
        8 => {
            // a struct of n fields, ids rising and falling
            for i in 0..n {
                if i % 3 == 2 {
                    b.extend_from_slice(&[0x05, 0x01, 0x08]);
                } else {
                    b.extend_from_slice(&[0x15, 0x08]);
                }
            }
            b.push(0);
            12
        }
        _ => {
            // list of lists
            b = vec![0xF9];
            wire::varint(&mut b, n as u64, 0);
            for _ in 0..n {
                b.extend_from_slice(&[0x21, 1, 2]);
            }
            9
        }
    };
    (t, b)
}
const KINDS: usize = 10;
fn large_lengths(kind: usize, th: bool) -> Vec<usize> {
    match (kind, th) {
        (0, _) => sums(0, MAX_BIN),
        (1 | 2, false) => steps(0, 1 << 20),
        (1 | 2, true) => steps(0, 10_000_000),
        (_, false) => steps(0, (1 << 17) + 1),
        (_, true) => steps(0, (1 << 21) + 1),
    }
}
fn skip_both(c: &mut Ctx, t: u8, b: &mut Vec<u8>, what: &str) {
    let len = b.len();
    for tail in [&[][..], &[0x15, 0x80, 0x00]] {
        b.truncate(len);
        b.extend_from_slice(tail);
        for (src, (r, used)) in [("slice", skip_slice(t, b)), ("stream", skip_stream(t, b))] {
            c.compared(1);
            c.check(r == Ok(()) && used == len, || format!("skipping {what} ({}) with {} bytes after it ({src}): {r:?} after {used} of {len} bytes", hex(b), tail.len()));
        }
    }
    c.states_n(1);
    c.cases(1);
    c.outcome("skipped exactly");
}

thread_local! {
    static BIG: RefCell<Vec<u8>> = RefCell::new(vec![0; MAX_BIN + 64]);
}
/// R06: long values, and binaries of every length.
pub fn skipping(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for kind in 0..KINDS {
        let ns = large_lengths(kind, th);
        jobs.push(Job::new(format!("lengths/{kind}"), 0, move |c| {
            let n = *c.pick(&ns);
            let (t, mut b) = large(kind, n);
            skip_both(c, t, &mut b, &format!("type {t} of length {n}"));
        }));
    }
    jobs.push(Job::new("all-binary-lengths", 0, move |c| {
        const BLOCK: usize = 4096;
        // quick: every 16th block in full
        let i = if th { c.choose(MAX_BIN / BLOCK) } else { 16 * c.choose(MAX_BIN / BLOCK / 16) + 5 };
        let bad = BIG.with(|b| {
            let mut b = b.borrow_mut();
            for n in i * BLOCK..=(i + 1) * BLOCK {
                let mut h = vec![];
                wire::varint(&mut h, n as u64, 0);
                let k = h.len();
                b[..k].copy_from_slice(&h);
                for tail in [0usize, 1, 20] {
                    let s = &b[..k + n + tail];
                    let r = guard(|| {
                        let mut x = CompactThriftInputSlice::new(s);
                        let r = x.skip_field(8).is_ok() && x.as_slice().len() == tail;
                        let mut y = CompactThriftInputSlice::new(s);
                        r && matches!(y.read_binary(), Ok(p) if p.len() == n && p.as_ptr() == s[k..].as_ptr()) && y.as_slice().len() == tail
                    });
                    if r != Ok(true) {
                        return Some((n, tail, r));
                    }
                }
                b[..k].fill(0);
            }
            None
        });
        c.states_n(BLOCK as u64);
        c.transitions_n(BLOCK as u64);
        c.compared(6 * BLOCK as u64);
        c.outcome_n("binary lengths", BLOCK as u64);
        if let Some((n, tail, r)) = bad {
            c.fail(format!("a binary of {n} bytes with {tail} bytes after it: skipping and reading from a slice do not both consume exactly it ({r:?})"));
        }
    }));
    jobs
}
/// R05: long unknown fields, and many of them.
pub fn unknown(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in named(&["Empty", "Small", "AllOpt", "Mixed"]) {
        for kind in 0..KINDS {
            let ns: Vec<usize> = large_lengths(kind, th).into_iter().filter(|n| *n >= 100 && (th || *n < 3_000_000)).collect();
            jobs.push(Job::new(format!("{}/lengths/{kind}", v.name), 0, move |c| {
                let m = nth(&v.ty, 0);
                let W::Struct(fs) = to_w(&v.ty, &m) else { panic!() };
                let n = if th { *c.pick(&ns) } else { ns[c.choose(ns.len() / 3) * 3] };
                let at = if c.choose(2) == 0 { 0 } else { fs.len() };
                let (t, u) = large(kind, n);
                // the fields before, the unknown one in long form, the rest
                let mut b = wire::canon(&W::Struct(fs[..at].to_vec()));
                b.pop();
                b.push(t);
                wire::varint(&mut b, wire::zigzag(3000), 0);
                b.extend(u);
                let mut tail = vec![];
                let mut pre = vec![(3000i16, W::Bool(true))];
                pre.extend(fs[at..].to_vec());
                let mut all = wire::canon(&W::Struct(pre));
                // drop the header of the placeholder
                let mut ph = wire::canon(&W::Struct(vec![(3000, W::Bool(true))]));
                ph.pop();
                tail.extend(all.split_off(ph.len()));
                b.extend(tail);
                equal(c, v, &m, &b, n, &format!("(length of an unknown field of type {t})"));
            }));
        }
        jobs.push(Job::new(format!("{}/many-unknown", v.name), 0, move |c| {
            let m = nth(&v.ty, 0);
            let W::Struct(fs) = to_w(&v.ty, &m) else { panic!() };
            let n = *c.pick(&[100usize, 255, 256, 1000, 65535, 65536, 70000]);
            let e = elems();
            let u = e[c.choose(e.len())].clone();
            let id = *c.pick(&[3000i16, -1, 0]);
            let mut all = fs.clone();
            let at = c.choose(2) * all.len();
            let many: Vec<(i16, W)> = (0..n).map(|_| (id, u.clone())).collect();
            all.splice(at..at, many);
            let b = wire::canon(&W::Struct(all));
            equal(c, v, &m, &b, n, "unknown fields");
        }));
    }
    jobs
}
/// R07: long inputs, whole and cut.
pub fn sources(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in text_like().into_iter().chain(named(&["Vec<i8>", "Vec<bool>", "Vec<i64>", "Vec<String>", "Vec<Small>"])) {
        let max = if matches!(v.ty, Ty::List(_)) { max_list(v, false) } else { MAX_BIN };
        let ns = if th { sums(0, max) } else { steps(0, max) };
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (_, mut b) = long_value(&v.ty, n, 0);
            match c.choose(5) {
                0 => {}
                1 => drop(b.pop()),
                2 => b.truncate(b.len() / 2),
                3 => b.push(7),
                _ => {
                    let i = b.len() / 2;
                    b[i] = b[i].wrapping_add(0x80);
                }
            }
            let (s, k) = v.read(&b);
            let (r, n2) = v.read_stream_bytes(&b);
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            let same = s == r && (s.is_err() || k == n2);
            c.check(same, || format!("{}: {n} elements ({}): slice {} after {k}, stream {} after {n2}", v.name, hex(&b), shown(&s), shown(&r)));
            c.outcome(if s.is_ok() { "both accept" } else { "both fail" });
        }));
    }
    for kind in 0..KINDS {
        let ns = large_lengths(kind, th);
        jobs.push(Job::new(format!("skip-lengths/{kind}"), 0, move |c| {
            let n = *c.pick(&ns);
            let (t, mut b) = large(kind, n);
            match c.choose(3) {
                0 => {}
                1 => drop(b.pop()),
                _ => b.truncate(b.len() / 2),
            }
            let (s, k) = skip_slice(t, &b);
            let (r, n2) = skip_stream(t, &b);
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.check(s == r && (s.is_err() || k == n2), || format!("skipping type {t} of length {n} ({}): slice {s:?} after {k}, stream {r:?} after {n2}", hex(&b)));
            c.outcome(if s.is_ok() { "both skip" } else { "both fail" });
        }));
    }
    jobs
}
/// R04: long values with a fault in them.
pub fn damaged(th: bool) -> Vec<Job<'static>> {
    const FAULTS: [&[u8]; 12] =
        [&[0x80], &[0xFF], &[0xC3], &[0xE2, 0x82], &[0xE2], &[0xF0, 0x9F, 0x98], &[0xF0], &[0xED, 0xA0, 0x80], &[0xC0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xE0, 0x80, 0x80], &[0xC3, 0xC3, 0xA9]];
    let mut jobs = vec![];
    let mut edges = vec![256usize, 512, 1024, 4096, 8192, 65_536];
    if th {
        edges.extend([128, 2048, 10_000, 16_384, 32_768, 1 << 20]);
    }
    for v in env().all.iter().filter(|v| matches!(v.ty, Ty::Str)) {
        let edges = edges.clone();
        jobs.push(Job::new(format!("{}/faults-at-edges", v.name), 0, move |c| {
            let e = *c.pick(&edges);
            let at = e - c.choose(5);
            let fault = *c.pick(&FAULTS);
            let after = *c.pick(&[0usize, 1, 2, 3, 40]);
            let mut s = if c.choose(2) == 0 { vec![b'q'; at] } else { text(at) };
            s.extend_from_slice(fault);
            s.extend(std::iter::repeat_n(b'r', after));
            let mut b = vec![];
            wire::varint(&mut b, s.len() as u64, 0);
            b.extend_from_slice(&s);
            let st = v.read_stream_bytes(&b);
            judge(c, v, &b, st, Side::MustReject);
        }));
    }
    for v in list_subjects() {
        let max = if th { 1 << 17 } else { (1 << 16) + 1 };
        let ns: Vec<usize> = steps(14, max).into_iter().filter(|n| th || (n & (n - 1) == 0 && n.trailing_zeros() % 2 == 0) || *n == max).collect();
        jobs.push(Job::new(format!("{}/fault-in-long", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (_, mut b) = long_value(&v.ty, n, 0);
            let i = match c.choose(4) {
                0 => b.len() - 1,
                1 => b.len() / 2,
                2 => b.len() - b.len() / n,
                _ => 4096.min(b.len() - 2),
            };
            match c.choose(4) {
                0 => b[i] = 0xFF,
                1 => b[i] ^= 0x80,
                2 => drop(b.remove(i)),
                _ => b[i] = b[i].wrapping_add(1),
            }
            let st = v.read_stream_bytes(&b);
            judge(c, v, &b, st, Side::MustReject);
        }));
    }
    jobs
}
/// R16: long values cut off.
pub fn cut(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in list_subjects().into_iter().chain(text_like()) {
        let max = if matches!(v.ty, Ty::List(_)) { (1 << 16) + 1 } else { MAX_BIN };
        let ns: Vec<usize> = if th { steps(129, max) } else { steps(129, max).into_iter().filter(|n| matches!(n & (n - 1), 0) || *n == 10_000 || *n == 65_537).collect() };
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (_, b) = long_value(&v.ty, n, 0);
            let mut cuts = vec![0, 1, 2, b.len() / 2, b.len() - 2, b.len() - 1];
            cuts.extend(steps(3, b.len() - 1).into_iter().filter(|n| n & (n - 1) == 0));
            let i = cuts[c.choose(cuts.len())];
            c.states_n(1);
            c.cases(1);
            for (src, r, _) in both(v, &b[..i]) {
                c.compared(1);
                c.check(r == Err(EOF), || format!("{}: the first {i} of {} bytes of {n} elements from a {src} give {}", v.name, b.len(), shown(&r)));
            }
            c.outcome("prefixes rejected");
        }));
    }
    jobs
}

/// R10: faults and characters around every boundary of long texts.
pub fn texts(th: bool, text_case: fn(&mut Ctx, &Vt, &[u8])) -> Vec<Job<'static>> {
    const B: [u8; 14] = [0x61, 0x00, 0x80, 0x9f, 0xa0, 0xbf, 0xc3, 0xe0, 0xe2, 0xed, 0xf0, 0xf4, 0x8f, 0xff];
    let mut jobs = vec![];
    for v in env().all.iter().filter(|v| matches!(&v.ty, Ty::Str)) {
        let main = v.name == "String" || v.name == "Cow<str>";
        let edges: Vec<usize> = if th {
            vec![256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 20]
        } else if main {
            vec![256, 1024, 4096, 8192, 65536]
        } else {
            vec![4096]
        };
        jobs.push(Job::new(format!("{}/boundaries", v.name), 0, move |c| {
            let e = *c.pick(&edges);
            let at = e - c.choose(5);
            let fill = c.choose(2);
            let after = *c.pick(&[0usize, 1, 20]);
            let a = *c.pick(&B);
            let mut s = if fill == 0 { vec![b'q'; at + 4 + after] } else { text(at) };
            s.resize(at + 4 + after, b'r');
            s[at] = a;
            // large texts: fewer combinations
            let bs: &[u8] = if e > 8192 { &[0x61, 0x80, 0x9f, 0xbf, 0xe2] } else { &B };
            let zs: &[u8] = if th && e <= 8192 { &B } else { &[0x61, 0x80, 0xbf, 0xc3] };
            let mut k = 0;
            for &x in bs {
                for &y in bs {
                    // quick: longer fillings only where two of the bytes are not text
                    if !th && x < 0x80 && y < 0x80 {
                        continue;
                    }
                    for &z in zs {
                        s[at + 1] = x;
                        s[at + 2] = y;
                        s[at + 3] = z;
                        text_case(c, v, &s);
                        k += 1;
                    }
                }
            }
            c.states_n(k);
            c.compared(2 * k);
            c.outcome_n("long texts", k);
        }));
        // one fault anywhere in long texts
        let ns: Vec<usize> = if th { vec![1000, 4096, 4097, 8191, 10_000] } else { vec![1000, 4097] };
        jobs.push(Job::new(format!("{}/fault-anywhere", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let mut s = if c.choose(2) == 0 { vec![b'q'; n] } else { text(n) };
            let step = 64;
            let from = c.choose(n.div_ceil(step)) * step;
            let x = *c.pick(&[0x80u8, 0xff, 0xe2]);
            let mut k = 0;
            for i in from..(from + step).min(n) {
                if !main && !th && i % 16 > 1 {
                    continue;
                }
                let old = s[i];
                s[i] = x;
                text_case(c, v, &s);
                s[i] = old;
                k += 1;
            }
            c.states_n(k);
            c.compared(2 * k);
            c.outcome_n("long texts", k);
        }));
        let ns = steps(0, MAX_BIN);
        jobs.push(Job::new(format!("{}/fault-at-end", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            if n == 0 {
                return;
            }
            let mut s = text(n);
            let i = *c.pick(&[0usize, 1, 2]);
            let at = match i {
                0 => n - 1,
                1 => 0,
                _ => n / 2,
            };
            s[at] = *c.pick(&[0xffu8, 0xe2]);
            text_case(c, v, &s);
            c.states_n(1);
            c.compared(2);
            c.outcome("long texts");
        }));
    }
    jobs
}

/// Gives at most `piece` bytes a call, fails after `left` bytes.
struct Limited<'b> {
    data: &'b [u8],
    piece: usize,
    left: usize,
    fail: Option<ErrorKind>,
    interrupt: bool,
    flip: bool,
}
impl Read for Limited<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.interrupt {
            self.flip = !self.flip;
            if self.flip {
                return Err(ErrorKind::Interrupted.into());
            }
        }
        if self.left == 0 && !buf.is_empty() {
            if let Some(k) = self.fail {
                return Err(k.into());
            }
        }
        let n = buf.len().min(self.piece).min(self.data.len()).min(self.left);
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}
const PIECES: [usize; 12] = [1, 7, 255, 256, 4095, 4096, 4097, 8191, 8192, 65535, 65536, usize::MAX];

/// R14: long values in pieces, failing at every boundary.
pub fn delivery(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in text_like().into_iter().chain(named(&["Vec<i8>", "Vec<i64>", "Vec<String>", "Vec<Small>"])) {
        let max = if matches!(v.ty, Ty::List(_)) { if th { 70_000 } else { 5_000 } } else if th { MAX_BIN } else { 1 << 20 };
        let ns: Vec<usize> = steps(100, max).into_iter().filter(|n| th || n & (n - 1) == 0 || *n == max).collect();
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let piece = *c.pick(&PIECES);
            let interrupt = c.choose(2) == 1;
            let (m, b) = long_value(&v.ty, n, 0);
            if piece < 100 && n > 100_000 {
                return;
            }
            let mut l = Limited { data: &b, piece, left: usize::MAX, fail: None, interrupt, flip: false };
            let r = v.read_stream(&mut l);
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.check(r.as_ref() == Ok(&m) && l.data.is_empty(), || format!("{}: {n} elements in pieces of {piece}: {}", v.name, shown(&r)));
            c.outcome("delivered in pieces");
        }));
        let ns: Vec<usize> = steps(100, if th { 200_000 } else { 20_000 }).into_iter().filter(|n| th || n & (n - 1) == 0).collect();
        jobs.push(Job::new(format!("{}/failing", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (_, b) = long_value(&v.ty, n, 0);
            let mut cuts = vec![0, 1, 2, 3, 4, b.len() / 2, b.len() - 2, b.len() - 1];
            cuts.extend(steps(5, b.len() - 1));
            let left = cuts[c.choose(cuts.len())];
            let fail = *c.pick(&[None, Some(ErrorKind::ConnectionReset), Some(ErrorKind::UnexpectedEof), Some(ErrorKind::InvalidData)]);
            let piece = *c.pick(&[usize::MAX, 4096, 1000]);
            let mut l = Limited { data: &b, piece, left, fail, interrupt: false, flip: false };
            let r = v.read_stream(&mut l);
            let want = Er::Io(fail.unwrap_or(ErrorKind::UnexpectedEof));
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.check(r.as_ref() == Err(&want), || format!("{}: {n} elements, the stream failing with {fail:?} after {left} of {} bytes: {}", v.name, b.len(), shown(&r)));
            c.outcome("failed");
        }));
    }
    for kind in 0..KINDS {
        let ns: Vec<usize> = steps(100, 20_000).into_iter().filter(|n| th || n & (n - 1) == 0).collect();
        jobs.push(Job::new(format!("skip-lengths/{kind}"), 0, move |c| {
            let n = *c.pick(&ns);
            let (t, mut b) = large(kind, n);
            let len = b.len();
            b.push(7);
            let piece = *c.pick(&PIECES);
            let interrupt = c.choose(2) == 1;
            let mut cuts = vec![usize::MAX, 0, 1, 2, len / 2, len - 1];
            cuts.extend(steps(3, len - 1).into_iter().filter(|n| n & (n - 1) == 0));
            let left = cuts[c.choose(cuts.len())];
            let fail = *c.pick(&[None, Some(ErrorKind::ConnectionReset)]);
            let mut l = Limited { data: &b, piece, left, fail, interrupt, flip: false };
            let r = skip_reader(t, &mut l);
            let want = if left == usize::MAX { Ok(()) } else { Err(Er::Io(fail.unwrap_or(ErrorKind::UnexpectedEof))) };
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            let rest = l.data.len();
            c.check(r == want && (r.is_err() || rest == 1), || format!("skipping type {t} of length {n} in pieces of {piece}, {fail:?} after {left}: {r:?}, {rest} bytes left"));
            c.outcome("skipped or failed");
        }));
    }
    jobs
}
struct Taking {
    got: Vec<u8>,
    piece: usize,
    room: usize,
    fail: Option<ErrorKind>,
    interrupt: bool,
    flip: bool,
}
impl Write for Taking {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt {
            self.flip = !self.flip;
            if self.flip {
                return Err(ErrorKind::Interrupted.into());
            }
        }
        if self.room == 0 {
            if let Some(k) = self.fail {
                return Err(k.into());
            }
        }
        let n = buf.len().min(self.piece).min(self.room);
        self.got.extend_from_slice(&buf[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// R15: long values to sinks taking pieces, failing at every boundary.
pub fn sinks(th: bool) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in text_like().into_iter().chain(named(&["Vec<i8>", "Vec<i64>", "Vec<String>", "Vec<Small>"])) {
        let max = if matches!(v.ty, Ty::List(_)) { if th { 70_000 } else { 5_000 } } else if th { MAX_BIN } else { 1 << 20 };
        let ns: Vec<usize> = steps(100, max).into_iter().filter(|n| th || n & (n - 1) == 0 || *n == max).collect();
        jobs.push(Job::new(format!("{}/lengths", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let piece = *c.pick(&PIECES);
            let interrupt = c.choose(2) == 1;
            if piece < 100 && n > 100_000 {
                return;
            }
            let (m, _) = long_value(&v.ty, n, 0);
            let full = written(c, v, &m);
            let mut s = Taking { got: vec![], piece, room: usize::MAX, fail: None, interrupt, flip: false };
            let r = v.write_to(&m, &mut s);
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.check(r == Ok(()) && s.got == full, || format!("{}: {n} elements to a sink taking {piece}: {r:?}, {} of {} bytes", v.name, s.got.len(), full.len()));
            c.outcome("all delivered");
        }));
        let ns: Vec<usize> = steps(100, if th { 200_000 } else { 20_000 }).into_iter().filter(|n| th || n & (n - 1) == 0).collect();
        jobs.push(Job::new(format!("{}/failing", v.name), 0, move |c| {
            let n = *c.pick(&ns);
            let (m, _) = long_value(&v.ty, n, 0);
            let full = written(c, v, &m);
            let mut cuts = vec![0, 1, 2, 3, 4, full.len() / 2, full.len() - 2, full.len() - 1];
            cuts.extend(steps(5, full.len() - 1));
            let room = cuts[c.choose(cuts.len())];
            let fail = *c.pick(&[None, Some(ErrorKind::BrokenPipe), Some(ErrorKind::WouldBlock)]);
            let piece = *c.pick(&[usize::MAX, 4096, 1000]);
            let mut s = Taking { got: vec![], piece, room, fail, interrupt: false, flip: false };
            let r = v.write_to(&m, &mut s);
            let want = Er::Io(fail.unwrap_or(ErrorKind::WriteZero));
            c.states_n(1);
            c.cases(1);
            c.compared(1);
            c.check(r.as_ref() == Err(&want) && full.starts_with(&s.got), || {
                format!("{}: {n} elements to a sink failing with {fail:?} after {room} of {} bytes: {r:?}, {} delivered", v.name, full.len(), s.got.len())
            });
            c.outcome("failure reported");
        }));
    }
    jobs
}
