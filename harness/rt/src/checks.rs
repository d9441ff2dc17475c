use crate::env::*;
use crate::kit::*;
use crate::sizes;
use crate::subject::*;
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{to_w, Ty, M};
use mc::wire::{self, W};
use std::io::{ErrorKind, Read, Write};

// ---- R01 ------------------------------------------------------------------------------------------------------

pub fn r01(th: bool) -> Plan<'static> {
    let (budget, max) = if th { (3e6, 4) } else { (6e4, 3) };
    let mut jobs = vec![];
    for v in env().all.iter() {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}", v.name, if sparse { "sparse" } else { "full" }), bound(&v.ty, 0.0, budget, max), move |c| {
                let m = value(c, &v.ty, sparse);
                round_trip(c, v, &m);
            }));
            jobs.push(Job::new(format!("{}/unusual/{sparse}", v.name), 0, move |c| {
                if let Some(m) = unusual_value(c, &v.ty, sparse, th) {
                    round_trip(c, v, &m);
                }
            }));
        }
    }
    // long texts and lists, at the lengths where the number of length groups changes
    for v in named(&["String", "Vec<u8>", "Cow<str>", "Vec<bool>", "Vec<i8>", "Vec<i64>", "Vec<Small>"]) {
        jobs.push(Job::new(format!("{}/long", v.name), 0, move |c| {
            let n = *c.pick(&[16383usize, 16384, 16385, 100_000, 2097151, 2097152]);
            let m = match &v.ty {
                Ty::Bin => M::Bin(bytes(n)),
                Ty::Str => M::Str(text(n)),
                Ty::List(t) => M::List((0..if n > 20_000 { n / 50 } else { n }).map(|i| nth(t, i)).collect()),
                _ => unreachable!(),
            };
            round_trip(c, v, &m);
        }));
    }
    jobs.extend(sizes::round(th));
    Plan::new(jobs, &[
        "every list type at every length 2^k-1, 2^k, 2^k+1, 3*2^(k-1), 10^k and neighbours up to 65537 (byte-sized and integer elements 262145; thorough 262145 and 2097153), every text and binary type at such lengths up to 16 MiB (thorough also sums and differences of two powers of two)",
        "values with one number, text or list replaced by one of up to 55 unusual ones, lists up to 70000 elements",
        "all pairs (thorough triples) of 25 types x 2 values written into one buffer and read back one after another",
        "every subject type; values with at most K deviations from two base values (all optionals present, all absent); K is the largest of 1..=max with at most `budget` executions per type",
        if th { "budget 3000000, max 4" } else { "budget 60000, max 3" },
        "each written value read back from slice and stream with 4 different suffixes; a slice ends at an inaccessible page",
    ])
}

// ---- R02 ------------------------------------------------------------------------------------------------------

pub fn r02(th: bool) -> Plan<'static> {
    let (budget, max) = if th { (3e6, 4) } else { (4e4, 3) };
    let mut jobs = vec![];
    for v in env().all.iter() {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}", v.name, if sparse { "sparse" } else { "full" }), bound(&v.ty, 0.0, budget, max), move |c| {
                let m = value(c, &v.ty, sparse);
                conforms(c, v, &m);
            }));
            jobs.push(Job::new(format!("{}/unusual/{sparse}", v.name), 0, move |c| {
                if let Some(m) = unusual_value(c, &v.ty, sparse, th) {
                    conforms(c, v, &m);
                }
            }));
        }
    }
    // absent values cannot be written as elements, and are left out as fields
    for v in env().all.iter().filter(|v| v.option) {
        jobs.push(Job::new(format!("{}/absent", v.name), 0, move |c| {
            let id = *c.pick(&[1i16, 16, -1]);
            let last = *c.pick(&[0i16, 1, 32767]);
            let (mut o, mut l) = (vec![], last);
            let r = v.write_field(&M::None, id, &mut l, &mut o);
            c.compared(1);
            c.check(r == Ok(()) && o.is_empty() && l == last, || {
                format!("{}: an absent optional written as field {id} gives {r:?}, bytes {}, tracked id {last} -> {l}", v.name, hex(&o))
            });
        }));
    }
    jobs.extend(sizes::protocol(th));
    Plan::new(jobs, &[
        "values with one number, text or list replaced by one of up to 55 unusual ones, lists up to 70000 elements",
        "every list, text and binary type at the lengths of R01",
        "every subject type; values with at most K deviations from two base values; bytes decoded by an independent schema-less decoder and compared with the declared ids, wire types and values",
        "each value also written as a field for 7 pairs of previous and new id",
        if th { "budget 3000000 executions per type, K <= 4" } else { "budget 40000 executions per type, K <= 3" },
    ])
}

// ---- R03 ------------------------------------------------------------------------------------------------------

pub fn r03(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain() {
        for &sparse in bases(&v.ty) {
            let tag = if sparse { "sparse" } else { "full" };
            // forms only, on a handful of values
            let heavy = weight(&v.ty) > 120.0;
            let k = match (th, heavy) {
                (false, true) => 1,
                (false, false) => 2,
                (true, true) => 2,
                (true, false) => 3,
            };
            jobs.push(Job::new(format!("{}/{tag}/forms", v.name), k, move |c| {
                let i = c.choose(3);
                let m = if sparse { v.ty.default() } else { nth(&v.ty, i) };
                let w = to_w(&v.ty, &m);
                let mut b = vec![];
                wire::encode(&w, true, &mut AnyForm { c }, &mut b);
                c.sample(|| format!("{} = {}", hex(&b), brief(&m)));
                accepts(c, v, &m, &b);
            }));
            let (budget, max) = if th { (6e5, 3) } else { (1.5e4, 2) };
            jobs.push(Job::new(format!("{}/{tag}/values+forms", v.name), bound(&v.ty, 20.0, budget, max), move |c| {
                let m = value(c, &v.ty, sparse);
                let w = to_w(&v.ty, &m);
                let mut b = vec![];
                wire::encode(&w, true, &mut AnyForm { c }, &mut b);
                accepts(c, v, &m, &b);
            }));
        }
    }
    for v in sets() {
        jobs.push(Job::new(format!("{}/set", v.name), 0, move |c| {
            let m = nth(&v.ty, c.choose(3));
            let b = wire::canon(&to_w(&v.ty, &m));
            c.compared(1);
            match v.read(&b).0 {
                Ok(x) if x == m => {}
                Err(Er::Type) => c.finding("set-not-readable", format!("{}: the encoding {} of {} with wire type set is rejected", v.name, hex(&b), brief(&m))),
                r => c.fail(format!("{}: {} gives {}", v.name, hex(&b), brief(&r))),
            }
        }));
    }
    jobs.extend(byte_jobs(th, Side::MustAccept));
    jobs.extend(sizes::forms(th));
    Plan::new(jobs, &[
        "every list, text and binary type at the lengths of R01, its length sent with 0, 1 and 5 redundant groups",
        "every subject type; encodings with at most K deviations from the canonical form: field order (any permutation within K picks), long field header, long list header, list tag 1/2, false as 0/2, redundant zero groups up to ten in all; crossed with value deviations",
        "all byte strings of the bounded byte exploration (see R04) that the reference decoder accepts must be read as the value it gives",
    ])
}

// ---- byte-level exploration (R03, R04, R07, R08) ----------------------------------------------------------------

pub fn byte_jobs(th: bool, side: Side) -> Vec<Job<'static>> {
    let mut jobs = vec![];
    for v in plain() {
        // everything on two bytes, then a small alphabet
        jobs.push(lazy_job(v, format!("{}/bytes2", v.name), if th { 2 } else { 1 }, if th { 3 } else { 2 }, ALPHA_BIG, side));
        let twice = th && rep().iter().any(|r| r.name == v.name);
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/mutated/{sparse}", v.name), 0, move |c| {
                let k = c.choose(if th { 3 } else { 2 });
                let m = if sparse { v.ty.default() } else { nth(&v.ty, k) };
                let b = wire::canon(&to_w(&v.ty, &m));
                let mut b = mutated(c, &b, ALPHA_BIG);
                if twice && b.len() <= 10 {
                    b = mutated(c, &b, ALPHA);
                }
                // something after it, so that misread lengths show
                if c.choose(2) == 1 {
                    b.extend_from_slice(&[0x15, 0x02, 0x00, 0x00]);
                }
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, side);
            }));
            // a length that is not the one of what follows; an unusual number, text or length
            jobs.push(Job::new(format!("{}/lengths/{sparse}", v.name), 0, move |c| {
                let m = if sparse { v.ty.default() } else { nth(&v.ty, 0) };
                let mut w = to_w(&v.ty, &m);
                if let W::Struct(f) = &mut w {
                    // something unknown with lengths of its own
                    if matches!(v.ty, Ty::Struct(_)) && c.choose(2) == 1 {
                        let el = elems();
                        f.push((999, c.pick(&el).clone()));
                    }
                }
                let Some(mut b) = lying(c, &w, th) else { return };
                if c.choose(2) == 1 {
                    b.extend_from_slice(&[0x15, 0x02, 0x00, 0x00]);
                }
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, side);
            }));
            jobs.push(Job::new(format!("{}/unusual/{sparse}", v.name), 0, move |c| {
                let m = if sparse { v.ty.default() } else { nth(&v.ty, 0) };
                let b = wire::canon(&unusual(c, &to_w(&v.ty, &m), th));
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, side);
            }));
        }
    }
    for v in rep() {
        jobs.push(lazy_job(v, format!("{}/bytes", v.name), if th { 2 } else { 1 }, if th { 5 } else { 4 }, ALPHA, side));
        if th {
            jobs.push(lazy_job(v, format!("{}/bytes-wide", v.name), 0, 4, ALPHA_BIG, side));
        }
        if th {
            jobs.push(lazy_job(v, format!("{}/bytes-deep", v.name), 0, 7, &[0x00, 0x01, 0x15, 0x18, 0x19, 0x1c, 0x02, 0x80], side));
        } else {
            jobs.push(lazy_job(v, format!("{}/bytes-deep", v.name), 0, 6, &[0x00, 0x01, 0x15, 0x18, 0x1c, 0x80], side));
        }
    }
    jobs
}

pub fn r04(th: bool) -> Plan<'static> {
    let mut jobs = byte_jobs(th, Side::MustReject);
    jobs.extend(sizes::damaged(th));
    Plan::new(jobs, &[
        "every valid encoding with one announced length replaced by 30 (90) others, short and padded, up to 2^63; with one number, text or list replaced by one of up to 55 unusual ones; texts of 250 to 65540 (1048580) bytes with each of 12 faults around powers of two; lists of up to 65537 elements with a fault in one",
        "byte strings chosen lazily, a byte only when the reader asks for it: all 256 values (and end of input) for the first byte (thorough: two), then an alphabet of 16 values, up to 4 (5) bytes (thorough also 4 bytes of 47 values), and up to 6 (7) bytes over a small alphabet, per representative type; 2 (3) bytes for every other type",
        "every valid encoding of 2 (3) values per type with any one byte replaced by any value, removed, inserted or the rest cut off (thorough: two such changes for encodings up to 10 bytes of the representative types)",
        "oracle: independent decoder; the points the property leaves open are skipped and counted",
    ])
}

pub fn r07(th: bool) -> Plan<'static> {
    let mut jobs = byte_jobs(th, Side::SameFromStream);
    // skipping
    for t in 0..16u8 {
        jobs.push(Job::new(format!("skip{t}"), 0, move |c| {
            let mut l = Lazy { c, bytes: vec![], full: 2, max: if th { 5 } else { 4 }, alpha: ALPHA, eof: false, reads_after_eof: 0 };
            let r = skip_reader(t, &mut l);
            let b = std::mem::take(&mut l.bytes);
            let n = b.len();
            c.state(&b);
            c.compared(1);
            let (s, k) = skip_slice(t, &b);
            let same = match (&r, &s) {
                (Ok(()), Ok(())) => n == k,
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            c.check(same, || format!("skipping type {t} in {}: slice {s:?} after {k}, stream {r:?} after {n}", hex(&b)));
            c.outcome(if r.is_ok() { "both skip" } else { "both fail" });
        }));
    }
    jobs.push(Job::new("skip-long-integers", 0, |c| {
        let t = 4 + c.choose(3) as u8;
        let (b, _) = long_int(c);
        let (r, n) = skip_stream(t, &b);
        let (s, k) = skip_slice(t, &b);
        c.state(&b);
        c.compared(1);
        let same = r == s && (r.is_err() || n == k);
        c.check(same, || format!("skipping type {t} in {}: slice {s:?} after {k}, stream {r:?} after {n}", hex(&b)));
    }));
    jobs.extend(sizes::sources(th));
    Plan::new(jobs, &[
        "long texts, binaries and lists, whole, cut, extended and with one byte changed, at the lengths of R01; long values of 10 kinds skipped, whole and cut",
        "the byte strings of R04, read from a slice and from a stream; results must be equal values with equal consumption, or equal errors",
        "skipping of all 16 type codes on lazily chosen bytes (two full, then 16 values, up to 4, thorough 5), and of integers of up to 40 groups followed by 0..=20 bytes",
    ])
}

/// An integer of 1..=40 groups followed by 0..=20 bytes; its length.
fn long_int(c: &mut Ctx) -> (Vec<u8>, usize) {
    let n = 1 + c.choose(40);
    let x = *c.pick(&[0x80u8, 0xFF, 0x81]);
    let mut b = vec![x; n - 1];
    b.push(*c.pick(&[0x00u8, 0x01, 0x7F]));
    let tail = c.choose(21);
    let y = *c.pick(&[0x00u8, 0x80, 0xFF, 0x15]);
    b.extend(std::iter::repeat(y).take(tail));
    (b, n)
}

// ---- R05 ------------------------------------------------------------------------------------------------------

pub fn r05(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let big = wire_catalogue();
    let small = elems();
    let big: &'static [W] = Box::leak(big.into_boxed_slice());
    let small: &'static [W] = Box::leak(small.into_boxed_slice());
    let job = move |v: &'static Vt, sparse: bool, cat: &'static [W], second: bool, all_ids: bool| {
        move |c: &mut Ctx| with_unknown(c, v, sparse, cat, second, all_ids, th)
    };
    for v in plain() {
        for &sparse in bases(&v.ty) {
            let light = v.group == "layout" || v.group == "list" || v.group == "wrap" || weight(&v.ty) > 300.0;
            let cat = if light && !th { small } else { big };
            jobs.push(Job::new(format!("{}/{sparse}/one", v.name), 0, job(v, sparse, cat, false, !light || th)));
            if th || weight(&v.ty) < 60.0 && v.group == "def" {
                jobs.push(Job::new(format!("{}/{sparse}/two", v.name), 0, job(v, sparse, small, true, false)));
            }
        }
    }
    // nesting
    for v in named(&["Empty", "Small", "AllOpt"]) {
        jobs.push(Job::new(format!("{}/nested", v.name), 0, move |c| {
            let m = v.ty.default();
            let mut w = to_w(&v.ty, &m);
            // the struct itself is one level
            let u = nest(c, if th { 6 } else { 4 }, 31);
            let W::Struct(fs) = &mut w else { panic!() };
            fs.push((1000, u));
            let b = wire::canon(&w);
            accepts(c, v, &m, &b);
        }));
    }
    // a boolean element of any byte is one byte
    for v in named(&["Empty", "Small", "AllOpt", "Mixed"]) {
        jobs.push(Job::new(format!("{}/bool-bytes", v.name), 0, move |c| {
            let m = nth(&v.ty, 0);
            let x = c.choose(256) as u8;
            let u: (u8, Vec<u8>) = match c.choose(6) {
                0 => (9, vec![0x11, x]),
                1 => (9, vec![0x32, 1, x, 2]),
                2 => (10, vec![0x21, x, x]),
                3 => (11, vec![1, 0x11, x, x]),
                4 => (11, vec![1, 0x23, x, 3]),
                _ => (9, vec![0x19, 0x12, x]),
            };
            let W::Struct(fs) = to_w(&v.ty, &m) else { panic!() };
            let mut b = vec![u.0];
            wire::varint(&mut b, wire::zigzag(-7), 0);
            b.extend(u.1);
            let mut pre = vec![(-7i16, W::Bool(true))];
            pre.extend(fs);
            let all = wire::canon(&W::Struct(pre));
            b.extend_from_slice(&all[2..]);
            accepts(c, v, &m, &b);
        }));
    }
    jobs.extend(sizes::unknown(th));
    Plan::new(jobs, &[
        "lists, sets and maps of booleans whose element is any of the 256 bytes; unknown values of 10 kinds of lengths up to 16 MiB (quick 3 MiB) and counts up to 10 million (quick 1 million), first or last; up to 70000 unknown fields in one struct",
        "one unknown field, of every value in a catalogue of about 650 wire values of all types, at every position (large structs: first and last three), with each of up to 9 undeclared ids, in every struct of the value; for larger types a smaller catalogue",
        "two unknown fields from a catalogue of 15 for the small types",
        "all nestings of list, set, map key, map value and struct of period up to 4 (thorough 6), to depth 31",
    ])
}

/// A value nested `depth` levels, level kinds following a pattern chosen freely of length up to `period`.
fn nest(c: &mut Ctx, period: usize, depth: usize) -> W {
    let p = 1 + c.choose(period);
    let pat: Vec<usize> = (0..p).map(|_| c.choose(5)).collect();
    let leaf = [W::Bool(true), W::I64(-1), W::Bin(vec![1, 2, 3])][c.choose(3)].clone();
    let mut w = leaf;
    for i in (0..depth).rev() {
        w = match pat[i % p] {
            0 => wire::list(vec![w]),
            1 => W::Struct(vec![(1, w), (2, W::Bool(true))]),
            2 => W::Map(wire::BYTE, w.elem_type(), vec![(W::Byte(1), w)]),
            3 => W::Map(w.elem_type(), wire::BOOL, vec![(w, W::Bool(false))]),
            _ => W::Set(w.elem_type(), vec![w]),
        };
    }
    w
}

// ---- R06 ------------------------------------------------------------------------------------------------------

const SKIP_TAILS: [&[u8]; 6] = [&[], &[0], &[0x80], &[0xFF; 17], &[0x00; 17], &[0x15, 0x16, 0x1c]];

fn skips(c: &mut Ctx, w: &W, b: &[u8], tail: &[u8]) {
    let mut buf = b.to_vec();
    buf.extend_from_slice(tail);
    c.state(&buf);
    let t = w.field_type();
    for (src, (r, n)) in [("slice", skip_slice(t, &buf)), ("stream", skip_stream(t, &buf))] {
        c.compared(1);
        if r != Ok(()) || n != b.len() {
            c.fail(format!("skipping the {} bytes of {} in {} ({src}) gives {r:?} and consumes {n}", b.len(), brief(w), hex(&buf)));
        }
    }
    c.outcome("skipped exactly");
}

pub fn r06(th: bool) -> Plan<'static> {
    let cat: &'static [W] = Box::leak(wire_catalogue().into_boxed_slice());
    let mut jobs = vec![];
    jobs.push(Job::new("catalogue", if th { 2 } else { 1 }, move |c| {
        let w = &cat[c.choose(cat.len())];
        let tail = *c.pick(&SKIP_TAILS);
        let mut b = vec![];
        wire::encode(w, false, &mut AnyForm { c }, &mut b);
        c.sample(|| format!("{} followed by {}", hex(&b), hex(tail)));
        skips(c, w, &b, tail);
    }));
    jobs.push(Job::new("integers", 0, |c| {
        let w = [W::I16(0), W::I32(0), W::I64(0)][c.choose(3)].clone();
        let (b, n) = long_int(c);
        skips(c, &w, &b[..n], &b[n..]);
    }));
    jobs.push(Job::new("integers-in-containers", 0, |c| {
        // integers of any encoded length inside every kind of container, several in a row
        let n1 = 1 + c.choose(20);
        let n2 = 1 + c.choose(20);
        let t = 4 + c.choose(3) as u8;
        let int = |n: usize| {
            let mut v = vec![0x80u8; n - 1];
            v.push(0);
            v
        };
        let (w, mut b) = match c.choose(5) {
            0 => (W::List(t, vec![]), vec![0x20 + t]),
            1 => (W::Set(t, vec![]), vec![0x20 + t]),
            2 => (W::Map(t, t, vec![]), vec![1, t * 16 + t]),
            3 => (W::List(t, vec![]), vec![0xF0 + t, 0x02]),
            _ => (W::Struct(vec![]), vec![0x10 + t]),
        };
        b.extend(int(n1));
        if matches!(w, W::Struct(_)) {
            b.push(0x20 + t);
        }
        b.extend(int(n2));
        if matches!(w, W::Struct(_)) {
            b.push(0);
        }
        let tail = *c.pick(&SKIP_TAILS);
        skips(c, &w, &b, tail);
    }));
    jobs.push(Job::new("nested", 0, move |c| {
        let depth = *c.pick(&[1usize, 2, 15, 31, 32]);
        let w = nest(c, if th { 6 } else { 4 }, depth);
        let mut b = vec![];
        wire::encode(&w, false, &mut wire::Canon, &mut b);
        let tail = *c.pick(&SKIP_TAILS[..3]);
        skips(c, &w, &b, tail);
    }));
    // containers in containers: all pairs of catalogue elements as siblings
    jobs.push(Job::new("siblings", 0, |c| {
        let es = elems();
        let a = es[c.choose(es.len())].clone();
        let b = es[c.choose(es.len())].clone();
        let x = es[c.choose(es.len())].clone();
        let w = match c.choose(3) {
            0 => W::Struct(vec![(1, a), (2, b), (3, x)]),
            1 => W::Map(a.elem_type(), b.elem_type(), vec![(a.clone(), b.clone()), (a, b)]),
            _ => W::Struct(vec![(1, wire::list(vec![a.clone(), a])), (-5, W::Map(b.elem_type(), x.elem_type(), vec![(b, x)]))]),
        };
        let mut o = vec![];
        wire::encode(&w, false, &mut wire::Canon, &mut o);
        let tail = *c.pick(&SKIP_TAILS);
        skips(c, &w, &o, tail);
    }));
    // many elements
    jobs.push(Job::new("long-containers", 0, |c| {
        let es = elems();
        let e = es[c.choose(es.len())].clone();
        let n = *c.pick(&[14usize, 15, 16, 127, 128, 1000, 16384]);
        let w = match c.choose(3) {
            0 => W::List(e.elem_type(), vec![e; n]),
            1 => W::Set(e.elem_type(), vec![e; n]),
            _ => W::Map(e.elem_type(), wire::BIN, vec![(e, W::Bin(vec![7; 3])); n]),
        };
        let mut b = vec![];
        wire::encode(&w, false, &mut wire::Canon, &mut b);
        let tail = *c.pick(&SKIP_TAILS[..2]);
        skips(c, &w, &b, tail);
    }));
    // agreement with reading
    for v in plain().filter(|v| v.ty.wire() != wire::BOOL) {
        jobs.push(Job::new(format!("{}/as-read", v.name), if th { bound(&v.ty, 0.0, 1e5, 2) } else { 1 }, move |c| {
            let m = value(c, &v.ty, false);
            let w = to_w(&v.ty, &m);
            let mut b = vec![];
            wire::encode(&w, false, &mut wire::Canon, &mut b);
            let (r, n) = v.read(&b);
            c.check(r.is_err() || n == b.len(), || format!("{}: reading {} consumes {n} of {}", v.name, hex(&b), b.len()));
            for t in SKIP_TAILS {
                skips(c, &w, &b, t);
            }
        }));
    }
    // byte strings: skipping succeeds exactly where the reference decoder finds a value, with its length
    for t in 1..13u8 {
        jobs.push(Job::new(format!("bytes/type{t}"), 0, move |c| {
            let mut l = Lazy { c, bytes: vec![], full: 2, max: if th { 5 } else { 4 }, alpha: ALPHA, eof: false, reads_after_eof: 0 };
            let r = skip_reader(t, &mut l);
            let b = std::mem::take(&mut l.bytes);
            c.state(&b);
            let mut d = wire::Dec::new(&b);
            let want = d.value(t, false);
            for (src, r, n) in [("stream", r, b.len()), {
                let (r, n) = skip_slice(t, &b);
                ("slice", r, n)
            }] {
                c.compared(1);
                match &want {
                    Err(wire::WErr::Open(_)) => c.outcome("left open"),
                    Err(e) => {
                        c.check(r.is_err(), || format!("skipping type {t} in {} ({src}) succeeds after {n} bytes though it is malformed ({e:?})", hex(&b)));
                        c.outcome("malformed");
                    }
                    Ok(_) => {
                        let ok = if r.is_ok() { n == d.pos } else { d.either };
                        c.check(ok, || format!("skipping type {t} in {} ({src}) gives {r:?} after {n} bytes; the value takes {}", hex(&b), d.pos));
                        c.outcome("skipped exactly");
                    }
                }
            }
        }));
    }
    jobs.extend(sizes::skipping(th));
    Plan::new(jobs, &[
        "binaries of every length up to 16 MiB with 0, 1 and 20 bytes after them, from slices (quick: every sixteenth block of 4096 lengths); values of 10 kinds at lengths 2^k-1, 2^k, 2^k+1, 10^k and more, up to 16 MiB, 1 million (thorough 10 million) bytes or bools and 131073 (2097153) other elements",
        "every catalogue value (about 650, all wire types, nested) in every form with at most 1 (thorough 2) deviations, followed by 6 different tails, from slice and stream",
        "integers of 1..=40 groups with 0..=20 bytes after them; pairs of integers of 1..=20 groups in every container",
        "all nestings of the five container kinds of period up to 4 (6), depths 1, 2, 15, 31, 32; all triples of 15 sibling values; containers up to 16384 elements",
        "every subject value (one deviation) skipped and read: same number of bytes; lazily chosen bytes of all 12 types against the reference decoder",
    ])
}

// ---- R08 ------------------------------------------------------------------------------------------------------

fn deep_input(c: &mut Ctx, n: usize) -> (u8, Vec<u8>) {
    let units: [(u8, &[u8]); 12] = [
        (9, &[0x19]),
        (10, &[0x1a]),
        (12, &[0x1c]),
        (11, &[0x01, 0x3b, 0x00]),
        (11, &[0x01, 0xb3]),
        (9, &[0xf9, 0x01]),
        (9, &[0x1c, 0x19]),
        (12, &[0x1b, 0x01, 0x3c, 0x00]),
        (12, &[0x0c, 0x02]),
        (9, &[0x1b, 0x01, 0xb3, 0x01, 0x39, 0x00]),
        (10, &[0x2a]),
        (9, &[0x1c, 0x1a, 0x1b, 0x01, 0x19, 0x1c, 0x19]),
    ];
    let (t, u) = *c.pick(&units);
    let mut b = Vec::with_capacity(n + 16);
    while b.len() < n {
        b.extend_from_slice(u);
    }
    (t, b)
}

pub fn r08(th: bool) -> Plan<'static> {
    let mut jobs = byte_jobs(th, Side::NoCrash);
    let depth = if th { 20_000_000 } else { 3_000_000 };
    jobs.push(Job::new("deep-nesting/skip", 0, move |c| {
        let n = *c.pick(&[100usize, 10_000, depth]);
        let (t, b) = deep_input(c, n);
        let stream = c.choose(2) == 1;
        c.state(&b[..b.len().min(16)]);
        c.compared(1);
        // a small stack, as a thread of an application may have
        let r = on_small_stack(|| if stream { skip_stream(t, &b).0 } else { skip_slice(t, &b).0 });
        if let Err(Er::Panic(p)) = r {
            c.fail(format!("skipping type {t} nested over {n} bytes panics: {p}"));
        }
        c.outcome("survived");
    }));
    jobs.push(Job::new("deep-nesting/periods", 0, move |c| {
        let (t, b) = nested(c, if th { 6 } else { 4 }, 200_000);
        let stream = c.choose(2) == 1;
        c.state(&b[..b.len().min(24)]);
        c.compared(1);
        let r = on_small_stack(|| if stream { skip_stream(t, &b).0 } else { skip_slice(t, &b).0 });
        if let Err(Er::Panic(p)) = r {
            c.fail(format!("skipping type {t} nested over {} panics: {p}", hex(&b)));
        }
        c.outcome("survived");
    }));
    for v in named(&["Empty", "Small", "AllOpt", "Vec<Small>", "Choice"]) {
        jobs.push(Job::new(format!("deep-nesting/{}", v.name), 0, move |c| {
            let n = *c.pick(&[1000usize, depth]);
            let (t, b) = deep_input(c, n);
            let mut i = match v.name.as_str() {
                "Vec<Small>" => vec![0x1c],
                _ => vec![],
            };
            // field 1000 of that type
            i.push(t);
            wire::varint(&mut i, wire::zigzag(1000), 0);
            i.extend_from_slice(&b);
            let stream = c.choose(2) == 1;
            c.state(&i[..i.len().min(16)]);
            c.compared(1);
            let r = on_small_stack(|| if stream { v.read_stream_bytes(&i).0 } else { v.read(&i).0 });
            if let Err(Er::Panic(p)) = r {
                c.fail(format!("{}: reading an unknown field nested over {n} bytes panics: {p}", v.name));
            }
            c.outcome("survived");
        }));
    }
    // endless integers
    for what in ["skip", "i64", "String"] {
        jobs.push(Job::new(format!("endless-integer/{what}"), 0, move |c| {
            let n = *c.pick(&[64u64, 5000, 700_000_000]);
            struct Endless(u64, u64);
            impl Read for Endless {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let n = (b.len() as u64).min(self.0) as usize;
                    b[..n].fill(0x80);
                    self.0 -= n as u64;
                    self.1 += 1;
                    Ok(n)
                }
            }
            let mut e = Endless(n, 0);
            let r = match what {
                "skip" => skip_reader(6, &mut e),
                _ => named(&[what])[0].read_stream(&mut e).map(|_| ()),
            };
            c.compared(1);
            c.state(&n.to_le_bytes());
            if let Err(Er::Panic(p)) = &r {
                c.fail(format!("{what}: an integer of {n} continuation bytes panics: {p}"));
            }
            c.check(e.1 <= n + 2, || format!("{what}: {} reads for {n} bytes", e.1));
            c.outcome("survived");
        }));
    }
    // skipping arbitrary bytes, and mutated catalogue values
    for t in 0..16u8 {
        jobs.push(Job::new(format!("skip/type{t}"), 0, move |c| {
            let mut l = Lazy { c, bytes: vec![], full: 2, max: if th { 5 } else { 4 }, alpha: ALPHA, eof: false, reads_after_eof: 0 };
            let r = skip_reader(t, &mut l);
            let (b, extra) = (std::mem::take(&mut l.bytes), l.reads_after_eof);
            c.state(&b);
            c.check(extra <= 1, || format!("skipping type {t} in {}: {extra} end-of-stream answers ignored", hex(&b)));
            let (s, n) = skip_slice(t, &b);
            c.compared(2);
            for r in [r, s] {
                if let Err(Er::Panic(p)) = r {
                    c.fail(format!("skipping type {t} in {} panics: {p}", hex(&b)));
                }
            }
            c.check(n <= b.len(), || format!("skipping type {t} in {} consumed {n}", hex(&b)));
            c.outcome("survived");
        }));
    }
    // field ids running over the 16-bit range
    jobs.push(Job::new("field-id-overflow", 0, |c| {
        let v = *c.pick(&named(&["Empty", "Small", "AllOpt", "Choice", "Lay12x"]));
        let start = *c.pick(&[32767i16, 32760, 32752, -32768, -1, 0]);
        let t = *c.pick(&[1u8, 5, 12]);
        let d = 1 + c.choose(15) as u8;
        let mut b = vec![1];
        wire::varint(&mut b, wire::zigzag(start as i64), c_pad(start));
        b.push(d * 16 + t);
        b.extend_from_slice(&[0, 0, 0]);
        c.state(&b);
        for (src, r, _) in both(v, &b) {
            c.compared(1);
            if let Err(Er::Panic(p)) = r {
                c.fail(format!("{}: {} panics ({src}): {p}", v.name, hex(&b)));
            }
        }
        c.outcome("survived");
    }));
    // a definition that contains itself, on input as deep as it likes: in a process of its own
    jobs.push(Job::new("recursive-definition", 0, |c| {
        for form in ["next", "kids"] {
            let me = std::env::current_exe().expect("own path");
            let out = std::process::Command::new(me).args(["probe", form]).output().expect("probe");
            c.compared(1);
            c.state(form.as_bytes());
            use std::os::unix::process::ExitStatusExt;
            match (out.status.code(), out.status.signal()) {
                (Some(0), _) => c.outcome("survived"),
                (None, Some(s)) => c.finding(
                    format!("recursive-definition-{form}"),
                    format!("reading `struct Node {{ 1: optional Box<Node> next; 2: optional list<Node> kids; .. }}` nested through `{form}` over 3000000 bytes exhausts the stack (signal {s})"),
                ),
                (code, _) => c.fail(format!("recursive definition through {form}: the probe ended with {code:?}")),
            }
        }
    }));
    let mut p = Plan::new(jobs, &[
        "the byte strings of R04, reading and (all 16 type codes) skipping: a value or an error, at most one end-of-stream answer consumed",
        "struct fields, list and set elements, map keys and values nested in each other over 200000 bytes with every period up to 4 (thorough 6)",
        "12 nesting patterns repeated over 100, 10000 and 3000000 (thorough 20000000) bytes, skipped and as unknown fields of 5 types, on a 512 KiB stack",
        "integers of 64, 5000 and 700000000 continuation bytes; field ids running past 32767",
        "built with overflow checks and debug assertions",
    ]);
    p.hang_ms = 120_000;
    p
}
fn c_pad(_: i16) -> usize {
    0
}

pub fn probe(what: &str) -> i32 {
    use crate::defs::Node;
    use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol};
    let unit: &[u8] = match what {
        "next" => &[0x1c],
        "kids" => &[0x29, 0x1c],
        "corpus" => {
            corpus("RUNTIME", &env().all);
            return 0;
        }
        _ => return 2,
    };
    let mut b = Vec::with_capacity(3_000_000);
    while b.len() < 3_000_000 {
        b.extend_from_slice(unit);
    }
    let r = Node::read_thrift(&mut CompactThriftInputSlice::new(&b));
    match r {
        Ok(n) => std::mem::forget(n),
        Err(_) => {}
    }
    0
}

// ---- R09 ------------------------------------------------------------------------------------------------------

pub fn r09(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    jobs.push(Job::new("skip/integers", 0, |c| {
        // p continuation bytes, a terminator or not, a tail; at either edge of accessible memory
        let p = c.choose(41);
        let mut b = vec![*c.pick(&[0x80u8, 0xFF]); p];
        if c.choose(2) == 0 {
            b.push(0x01);
        }
        let tail = c.choose(20);
        let y = *c.pick(&[0x00u8, 0x80]);
        b.extend(std::iter::repeat(y).take(tail));
        let t = *c.pick(&[4u8, 5, 6]);
        c.state(&b);
        edges(c, &b, &format!("skipping type {t}"), |b| {
            use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice};
            let mut i = CompactThriftInputSlice::new(b);
            let _ = i.skip_field(t);
            suffix_of(i.as_slice(), b)
        });
    }));
    jobs.push(Job::new("operations", 0, move |c| {
        // sequences of primitive operations on one input
        use compact_thrift_runtime::{read_collection_len_and_type, read_map_len_and_types, CompactThriftInput, CompactThriftInputSlice};
        let len = *c.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33]);
        let fill = *c.pick(&[0x00u8, 0x01, 0x03, 0x0f, 0x10, 0x18, 0x7f, 0x80, 0xff]);
        let mut b = vec![fill; len];
        if len > 0 && c.choose(2) == 1 {
            b[len - 1] = 0;
        }
        let n = if th { 4 } else { 3 };
        let ops: Vec<usize> = (0..n).map(|_| c.choose(15)).collect();
        c.state(&[b.as_slice(), &ops.iter().map(|x| *x as u8).collect::<Vec<_>>()].concat());
        edges(c, &b, &format!("operations {ops:?}"), |b| {
            let mut i = CompactThriftInputSlice::from(b);
            let mut ok = true;
            let mut last = 0i16;
            let inside = |x: &[u8]| x.is_empty() || (x.as_ptr() as usize >= b.as_ptr() as usize && x.as_ptr() as usize + x.len() <= b.as_ptr() as usize + b.len());
            for &o in &ops {
                let before = i.as_slice();
                match o {
                    0 => drop(i.read_byte()),
                    1 => drop(i.read_i64()),
                    2 => drop(i.read_double()),
                    3 | 4 => {
                        if let Ok(x) = i.read_binary() {
                            ok &= matches!(x, std::borrow::Cow::Owned(_)) || inside(&x);
                            // payload directly before the rest
                            ok &= x.is_empty() || matches!(x, std::borrow::Cow::Owned(_)) || x.as_ptr() as usize + x.len() == i.as_slice().as_ptr() as usize || i.as_slice().is_empty();
                            ok &= before.len() >= x.len() + i.as_slice().len();
                        }
                    }
                    5 => {
                        if let Ok(x) = i.read_string() {
                            ok &= matches!(x, std::borrow::Cow::Owned(_)) || inside(x.as_bytes());
                        }
                    }
                    6 => drop(i.skip_integer()),
                    7 => drop(i.skip_binary()),
                    8 => drop(i.skip_field(12)),
                    9 => drop(i.skip_field(9)),
                    10 => drop(i.skip_field(11)),
                    11 => drop(i.read_field_header(&mut last)),
                    12 => drop(read_collection_len_and_type(&mut i)),
                    13 => drop(read_map_len_and_types(&mut i)),
                    _ => drop(i.skip_field(6)),
                }
                ok &= suffix_of(i.as_slice(), before) && suffix_of(i.as_slice(), b);
            }
            ok
        });
    }));
    // every type on mutated encodings, at both edges
    for v in plain() {
        jobs.push(Job::new(format!("{}/mutated", v.name), 0, move |c| {
            let k = c.choose(if th { 3 } else { 1 });
            let b = wire::canon(&to_w(&v.ty, &nth(&v.ty, k)));
            let b = mutated(c, &b, ALPHA);
            c.state(&b);
            for end in [true, false] {
                let r = fenced(&b, end, |b| v.read_slice_raw(b));
                c.compared(1);
                c.check(r.suffix && r.consumed <= b.len(), || format!("{}: after reading {} the rest is not a suffix of the input", v.name, hex(&b)));
            }
            c.outcome("stayed inside");
        }));
    }
    // borrowed text lies where the payload was
    for v in named(&["Cow<str>", "Cow<[u8]>"]) {
        jobs.push(Job::new(format!("{}/borrowed", v.name), 0, move |c| {
            let n = *c.pick(&[0usize, 1, 2, 15, 16, 17, 127, 128, 300, 16384]);
            let pad = c.choose(3);
            let tail = c.choose(3);
            let mut b = vec![];
            wire::varint(&mut b, n as u64, pad);
            b.extend(text(n));
            b.extend(vec![0x61u8; tail]);
            c.state(&b);
            for end in [true, false] {
                let r = fenced(&b, end, |b| v.read_slice_raw(b));
                c.compared(1);
                let ok = r.suffix && r.consumed == b.len() - tail && r.result.is_ok();
                c.check(ok, || format!("{}: {n} bytes borrowed from {}: {}, rest correct: {}", v.name, hex(&b), brief(&r.result), r.suffix));
            }
            c.outcome("borrowed in place");
        }));
    }
    jobs.extend(rep().into_iter().map(|v| lazy_job(v, format!("{}/bytes", v.name), 1, if th { 4 } else { 3 }, ALPHA_BIG, Side::NoCrash)));
    Plan::new(jobs, &[
        "every input lies between two inaccessible pages, touching one of them: any access outside ends the process",
        "integers of 0..=40 continuation bytes, terminated or not, with 0..=19 bytes after them, at both edges",
        "all sequences of 3 (thorough 4) of 15 primitive operations on 15 lengths and 18 fillings of a slice, at both edges; after each the rest must be a suffix and borrowed data inside the slice",
        "every type on every single-byte mutation of a valid encoding at both edges; lazily chosen bytes",
    ])
}
fn suffix_of(r: &[u8], b: &[u8]) -> bool {
    r.len() <= b.len() && (r.is_empty() || r.as_ptr() as usize + r.len() == b.as_ptr() as usize + b.len())
}
fn edges(c: &mut Ctx, b: &[u8], what: &str, f: impl Fn(&[u8]) -> bool) {
    for end in [true, false] {
        let r = guard(|| fenced(b, end, |b| f(b)));
        c.compared(1);
        match r {
            Ok(true) => c.outcome("stayed inside"),
            Ok(false) => c.fail(format!("{what} on {}: the rest or a borrowed part lies outside the input", hex(b))),
            // crashes are the business of R08, but a panic inside a slice operation is an access that was out of bounds
            Err(p) if p.contains("out of range") || p.contains("out of bounds") || p.contains("unsafe precondition") => {
                c.fail(format!("{what} on {} accesses outside the input: {p}", hex(b)))
            }
            Err(_) => c.outcome("panicked otherwise"),
        }
    }
}

// ---- R10 ------------------------------------------------------------------------------------------------------

fn text_subjects() -> Vec<&'static Vt> {
    env().all.iter().filter(|v| matches!(&v.ty, Ty::Str) || matches!(&v.ty, Ty::List(t) if matches!(**t, Ty::Str))).collect()
}
fn text_case(c: &mut Ctx, v: &Vt, s: &[u8]) {
    let mut b = vec![];
    wire::varint(&mut b, s.len() as u64, 0);
    b.extend_from_slice(s);
    let mut b = match &v.ty {
        Ty::List(_) => [&[0x18], b.as_slice()].concat(),
        Ty::Struct(_) => [&[0x15, 0x02, 0x18], b.as_slice(), &[0]].concat(),
        Ty::Union(_) => [&[0x28], b.as_slice(), &[0]].concat(),
        _ => b,
    };
    let ok = wire::utf8_ok(s);
    let x = M::Str(s.to_vec());
    let want = match &v.ty {
        Ty::List(_) => M::List(vec![x]),
        Ty::Struct(_) => M::Struct(vec![M::I32(1), x]),
        Ty::Union(_) => M::Union(1, Box::new(x)),
        _ => x,
    };
    let n = b.len();
    b.push(0x61);
    let (r, k) = v.read(&b);
    let (r2, k2) = v.read_stream_bytes(&b);
    for (src, r, k) in [("slice", r, k), ("stream", r2, k2)] {
        let good = if ok { r.as_ref() == Ok(&want) && k == n } else { r == Err(Er::Utf8) };
        if !good {
            c.fail(format!("{}: the text bytes {} ({}valid UTF-8) read from a {src} give {}", v.name, hex(s), if ok { "" } else { "in" }, brief(&r)));
        }
    }
}
pub fn r10(th: bool) -> Plan<'static> {
    let mut subs = text_subjects();
    subs.extend(named(&["Small", "Choice"]));
    let mut jobs = vec![];
    for v in subs {
        jobs.push(Job::new(format!("{}/up-to-2-bytes", v.name), 0, move |c| {
            let first = c.choose(257);
            if first == 256 {
                text_case(c, v, &[]);
                return;
            }
            text_case(c, v, &[first as u8]);
            for s in 0..=255u8 {
                text_case(c, v, &[first as u8, s]);
            }
            c.states_n(257);
            c.compared(2 * 257);
            c.outcome_n("texts", 257);
        }));
        // four-byte strings over the bytes where the rules change, and every position of a fault in a longer text
        jobs.push(Job::new(format!("{}/classes", v.name), 0, move |c| {
            const B: [u8; 27] = [
                0x00, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3,
                0xf4, 0xf5, 0xf8, 0xfe, 0xff,
            ];
            let a = *c.pick(&B);
            let b = *c.pick(&B);
            let n = if th || v.name == "String" || v.name == "Cow<str>" { B.len() } else { 9 };
            for x in &B[..] {
                text_case(c, v, &[a, b, *x]);
                for y in &B[..n] {
                    text_case(c, v, &[a, b, *x, *y]);
                }
            }
            let k = (B.len() * (n + 1)) as u64;
            c.states_n(k);
            c.compared(2 * k);
            c.outcome_n("texts", k);
        }));
        jobs.push(Job::new(format!("{}/fault-position", v.name), 0, move |c| {
            let n = *c.pick(&[5usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 130]);
            let mut s = text(n);
            let ascii = c.choose(2) == 1;
            if ascii {
                s = vec![b'q'; n];
            }
            let i = c.choose(n);
            s[i] = *c.pick(&[0x80u8, 0xff, 0xc0, 0xed, b'z', 0xe2]);
            c.state(&s);
            c.compared(2);
            text_case(c, v, &s);
            c.outcome("texts");
        }));
    }
    for name in ["String", "Cow<str>"] {
        let v = named(&[name])[0];
        jobs.push(Job::new(format!("{name}/all-3-bytes"), 0, move |c| {
            let a = c.choose(256) as u8;
            let b = c.choose(256) as u8;
            // quick: the third byte over the values where the rules change
            let thirds: &[u8] = if th { &[] } else { &[0x00, 0x61, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xe0, 0xed, 0xf0, 0xff] };
            let mut k = 0;
            for x in 0..=255u8 {
                if th || thirds.contains(&x) {
                    text_case(c, v, &[a, b, x]);
                    k += 1;
                }
            }
            c.states_n(k);
            c.compared(2 * k);
            c.outcome_n("texts", k);
        }));
    }
    jobs.extend(sizes::texts(th, text_case));
    // binaries come through as they are
    for v in env().all.iter().filter(|v| matches!(v.ty, Ty::Bin)) {
        jobs.push(Job::new(format!("{}/binary", v.name), 0, move |c| {
            let a = c.choose(256) as u8;
            for b in 0..=255u8 {
                let s = [a, b];
                let m = M::Bin(s.to_vec());
                let e = [2, a, b];
                for (src, r, n) in both(v, &e) {
                    c.check(r.as_ref() == Ok(&m) && n == 3, || format!("{}: binary {} read from a {src} gives {}", v.name, hex(&s), brief(&r)));
                }
                let w = v.write(&m);
                c.check(w.as_deref() == Ok(&e[..]), || format!("{}: binary {} is written as {w:?}", v.name, hex(&s)));
            }
            c.states_n(256);
            c.compared(768);
            c.outcome_n("binaries", 256);
        }));
    }
    Plan::new(jobs, &[
        "for each of the string types, alone, in lists, in a struct and in a union, from slice and stream: all texts of up to 2 bytes; all texts of 3 and 4 bytes over the 27 bytes at which the UTF-8 rules change (for most types the fourth over 9 of them; thorough all); a fault at every position of texts of 11 lengths up to 130",
        "String and Cow<str>: all texts of 2 bytes with 15 third bytes (thorough: all 16777216 texts of 3 bytes)",
        "long texts: all sequences of 4 bytes from up to 14 ending at, crossing or starting at offsets 256 .. 65536 (thorough up to 1 MiB) in ASCII and mixed text; one fault at any position of texts of 1000 and 4097 bytes (thorough up to 10000), and at the start, middle and end of texts of up to 16 MiB",
        "oracle: an independent automaton of Unicode table 3-7",
    ])
}

// ---- R11 ------------------------------------------------------------------------------------------------------

/// Every place in a value where a wire type is declared: path and declared type. `fields`: the place is a field.
fn places(ty: &Ty, w: &W, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Ty, bool)>) {
    match (ty, w) {
        (Ty::Struct(d), W::Struct(fs)) | (Ty::Union(d), W::Struct(fs)) => {
            for (i, (id, x)) in fs.iter().enumerate() {
                if let Some(f) = d.fields.iter().find(|f| f.id == *id) {
                    path.push(i);
                    out.push((path.clone(), f.ty.clone(), true));
                    places(&f.ty, x, path, out);
                    path.pop();
                }
            }
        }
        (Ty::List(t), W::List(_, v)) => {
            out.push((path.clone(), (**t).clone(), false));
            for (i, x) in v.iter().enumerate().take(1) {
                path.push(i);
                places(t, x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

pub fn r11(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain() {
        jobs.push(Job::new(v.name.clone(), 0, move |c| {
            // for unions: every member as the base
            let ks = if let Ty::Union(d) = &v.ty { d.fields.len() } else if th { 4 } else { 2 };
            let k = c.choose(ks);
            let m = nth(&v.ty, k);
            let mut w = to_w(&v.ty, &m);
            let mut ps = vec![];
            places(&v.ty, &w, &mut vec![], &mut ps);
            if ps.is_empty() {
                return;
            }
            let (path, t, field) = ps[c.choose(ps.len())].clone();
            let mut cat = elems();
            // integers that look like the declared type in every other respect
            cat.extend([W::I16(1), W::I32(1), W::I64(1), W::Byte(1), W::Bin(vec![]), W::List(wire::BYTE, vec![]), W::List(wire::STRUCT, vec![W::Struct(vec![])])]);
            let u = cat[c.choose(cat.len())].clone();
            if u.elem_type() == t.wire() {
                return;
            }
            let n = if field { 1 } else { *c.pick(&[1usize, 2, 14, 15, 16]) };
            let target = at(&mut w, &path);
            *target = if field { u.clone() } else { W::List(u.elem_type(), vec![u.clone(); n]) };
            let b = wire::canon(&w);
            c.state(&b);
            c.sample(|| format!("{} in place of {t:?}: {}", brief(&u), hex(&b)));
            for (src, r, _) in both(v, &b) {
                c.compared(1);
                if r != Err(Er::Type) {
                    c.fail(format!(
                        "{}: {} has {} of wire type {} where type {} is declared{}, but reading it from a {src} gives {}",
                        v.name,
                        hex(&b),
                        if field { "a field" } else { "list elements" },
                        u.elem_type(),
                        t.wire(),
                        if field { "" } else { " for the elements" },
                        brief(&r)
                    ));
                }
            }
            c.outcome("rejected as wrong type");
        }));
    }
    // through the trait: every type code for every type, with any bytes after it
    for v in plain() {
        jobs.push(Job::new(format!("{}/field-type", v.name), 0, move |c| {
            let t = c.choose(16) as u8;
            let tail = *c.pick(&[&[][..], &[0], &[1], &[0x10, 0x00], &[0x18, 0x61], &[0x80, 0x01, 0, 0, 0, 0, 0, 0, 0, 0]]);
            let ok = t == v.ty.wire() || (v.ty.wire() == wire::BOOL && t == 1);
            if ok || t == 0 {
                return;
            }
            let old = if v.option { M::None } else { v.ty.default() };
            let (r, _, n) = v.fill_field(&old, t, tail);
            c.compared(1);
            c.state(&[&[t], tail].concat());
            c.check(r == Err(Er::Type), || format!("{}: filled as a field of wire type {t} from {}: {r:?} ({n} bytes consumed)", v.name, hex(tail)));
            c.outcome("rejected as wrong type");
        }));
    }
    // type codes 13 to 15 (and 14, 15, 0 for elements) are no declared type either
    for v in plain().filter(|v| is_struct(v)) {
        let (Ty::Struct(d) | Ty::Union(d)) = &v.ty else { continue };
        if d.fields.is_empty() {
            continue;
        }
        jobs.push(Job::new(format!("{}/unassigned-codes", v.name), 0, move |c| {
            let f = &d.fields[c.choose(d.fields.len())];
            let t = 13 + c.choose(3) as u8;
            let mut b = vec![];
            if (1..16).contains(&f.id) && c.choose(2) == 0 {
                b.push((f.id as u8) * 16 + t);
            } else {
                b.push(t);
                wire::varint(&mut b, wire::zigzag(f.id as i64), 0);
            }
            let tail: &[u8] = *c.pick(&[&[0u8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0][..], &[][..], &[0x01, 0x02, 0x00, 0x00, 0x00][..]]);
            b.extend_from_slice(tail);
            c.state(&b);
            for (src, r, _) in both(v, &b) {
                c.compared(1);
                c.check(r == Err(Er::Type), || format!("{}: {} has field {} with type code {t}, read from a {src} as {}", v.name, hex(&b), f.id, brief(&r)));
            }
            c.outcome("rejected as wrong type");
        }));
    }
    for v in plain().filter(|v| matches!(v.ty, Ty::List(_))) {
        let Ty::List(t) = &v.ty else { continue };
        jobs.push(Job::new(format!("{}/element-codes", v.name), 0, move |c| {
            let code = c.choose(16) as u8;
            let n = 1 + c.choose(16);
            if code == t.wire() || (t.wire() == wire::BOOL && code == 1) {
                return;
            }
            let mut b = vec![];
            if n < 15 {
                b.push(n as u8 * 16 + code);
            } else {
                b.push(0xF0 + code);
                b.push(n as u8);
            }
            b.extend(vec![*c.pick(&[0u8, 1, 0x10]); 40]);
            c.state(&b);
            for (src, r, _) in both(v, &b) {
                c.compared(1);
                c.check(r == Err(Er::Type), || format!("{}: {} has elements of type code {code}, read from a {src} as {}", v.name, hex(&b), brief(&r)));
            }
            c.outcome("rejected as wrong type");
        }));
    }
    for v in sets() {
        jobs.push(Job::new(format!("{}/set", v.name), 0, move |c| {
            // a list sent for a set
            let m = nth(&v.ty, c.choose(3));
            let b = wire::canon(&sets_as_lists(to_w(&v.ty, &m)));
            c.compared(1);
            match v.read(&b).0 {
                Err(Er::Type) => {}
                Ok(x) if x == m => c.finding("list-read-as-set", format!("{}: lists sent in place of declared sets are accepted: {} read as {}", v.name, hex(&b), brief(&x))),
                r => c.fail(format!("{}: {} gives {}", v.name, hex(&b), brief(&r))),
            }
        }));
    }
    Plan::new(jobs, &[
        "every place in the value of every subject type where a wire type is declared (fields of structs at all depths, every union member, list elements) x a value of every other wire type (22 values); lists of 1, 2, 14, 15, 16 wrong elements",
        "the trait's field reader of every type with each of the other type codes and 6 tails; type codes 13-15 in every declared field; every wrong element code with 1..=16 elements",
    ])
}

// ---- R12 ------------------------------------------------------------------------------------------------------

pub fn r12(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain().filter(|v| matches!(v.ty, Ty::Struct(_)) && v.group != "wrap") {
        let Ty::Struct(d) = &v.ty else { continue };
        let d = d.clone();
        let n = d.fields.len();
        let small = n <= if th { 7 } else { 5 };
        let k = if th { 3 } else { 2 };
        jobs.push(Job::new(format!("{}/presence", v.name), k, move |c| {
            // how often each field is sent: any combination for small structs, few deviations otherwise
            let base = if small { 0 } else { c.choose(3) };
            let counts: Vec<usize> = (0..n)
                .map(|i| {
                    if small {
                        c.choose(3)
                    } else {
                        let req = d.fields[i].required;
                        // all once; required only; none
                        let order: [usize; 3] = match (base, req) {
                            (0, _) | (1, true) => [1, 0, 2],
                            _ => [0, 1, 2],
                        };
                        order[c.dev(3)]
                    }
                })
                .collect();
            let order = if small && n <= 4 { c.choose(3) } else { 0 };
            let mut fs: Vec<(i16, W)> = vec![];
            for (i, f) in d.fields.iter().enumerate() {
                for j in 0..counts[i] {
                    fs.push((f.id, to_w(&f.ty, &nth(&f.ty, 2 * i + j))));
                }
            }
            match order {
                1 => fs.reverse(),
                2 => {
                    let h = fs.len() / 2;
                    fs.rotate_left(h)
                }
                _ => {}
            }
            let b = wire::canon(&W::Struct(fs));
            c.state(&b);
            let dup_opt = d.fields.iter().zip(&counts).any(|(f, k)| !f.required && *k > 1);
            let dup_req = d.fields.iter().zip(&counts).any(|(f, k)| f.required && *k > 1);
            let missing = d.fields.iter().zip(&counts).find(|(f, k)| f.required && **k == 0).map(|(f, _)| format!("{}::{}", d.name, f.name));
            for (src, r, used) in both(v, &b) {
                c.compared(1);
                let ok = match (&r, dup_opt, &missing) {
                    // the duplicate is met before the end
                    (Err(Er::Dup), true, _) => true,
                    (_, true, _) => false,
                    (Err(Er::Missing(s)), _, Some(x)) => s == x,
                    (Ok(_), _, Some(_)) => false,
                    (Err(_), _, Some(_)) => dup_req,
                    (Ok(M::Struct(xs)), _, None) => {
                        used == b.len() && xs.iter().zip(&counts).zip(&d.fields).all(|((x, k), f)| f.required || (*x == M::None) == (*k == 0)) && (dup_req || {
                            let want = M::Struct(d.fields.iter().enumerate().map(|(i, f)| if counts[i] == 0 { M::None } else { nth(&f.ty, 2 * i) }).collect());
                            r.as_ref() == Ok(&want)
                        })
                    }
                    (Ok(_), _, None) => false,
                    // a required field sent twice is left open
                    (Err(_), _, None) => dup_req,
                };
                if !ok {
                    c.fail(format!(
                        "{}: fields sent {:?} times: {} read from a {src} gives {} (expected {})",
                        v.name,
                        counts,
                        hex(&b),
                        brief(&r),
                        if dup_opt { "a duplicate error".into() } else if let Some(m) = &missing { format!("missing {m}") } else { "the value".into() }
                    ));
                }
            }
            c.outcome(if dup_opt { "duplicate" } else if missing.is_some() { "missing" } else { "complete" });
        }));
    }
    for v in plain().filter(|v| matches!(v.ty, Ty::Union(_))) {
        let Ty::Union(d) = &v.ty else { continue };
        let d = d.clone();
        jobs.push(Job::new(format!("{}/members", v.name), 0, move |c| {
            let mut fs: Vec<(i16, W)> = vec![];
            let n = c.choose(3);
            let mut unknown_first = false;
            let mut first = None;
            for j in 0..n {
                let i = c.choose(d.fields.len() + 3);
                if let Some(f) = d.fields.get(i) {
                    let m = nth(&f.ty, j + 1);
                    fs.push((f.id, to_w(&f.ty, &m)));
                    if j == 0 {
                        first = Some(M::Union(i, Box::new(m)));
                    }
                } else {
                    let ids = undeclared(&d);
                    let es = elems();
                    let u = es[c.choose(es.len())].clone();
                    fs.push((ids[i - d.fields.len()], u));
                    unknown_first |= j == 0;
                }
            }
            let b = wire::canon(&W::Struct(fs));
            c.state(&b);
            for (src, r, used) in both(v, &b) {
                c.compared(1);
                let ok = match n {
                    0 => r.is_err(),
                    _ if unknown_first => r == Err(Er::Missing(d.name.clone())),
                    1 => r.as_ref().ok() == first.as_ref() && r.is_ok() && used == b.len(),
                    _ => r.is_err(),
                };
                if !ok {
                    c.fail(format!("{}: {n} members ({}) in {} read from a {src} as {}", v.name, if unknown_first { "the first unknown" } else { "known first" }, hex(&b), brief(&r)));
                }
                if let Err(Er::Panic(p)) = r {
                    c.fail(format!("{}: {} panics: {p}", v.name, hex(&b)));
                }
            }
            c.outcome(if n == 1 && !unknown_first { "one known member" } else { "rejected" });
        }));
    }
    Plan::new(jobs, &[
        "every definition: each field sent 0, 1 or 2 times, all combinations for up to 5 (thorough 7) fields (in three orders for up to 4), at most 2 (3) deviations from three bases for larger ones",
        "every union: no member, one, or two, known or unknown, unknown ones with 15 different contents",
    ])
}

// ---- R13 ------------------------------------------------------------------------------------------------------

pub fn r13(th: bool) -> Plan<'static> {
    use mc::alloc::measure;
    const OVER_BIN: [u64; 10] = [(16 << 20) + 1, (16 << 20) + 4096, 1 << 25, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 63, u64::MAX];
    const OVER_COLL: [u64; 10] = [10_000_001, 10_000_002, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 2, 1 << 63, u64::MAX];
    let mut jobs = vec![];
    // refused binaries
    for v in env().all.iter().filter(|v| matches!(v.ty, Ty::Bin | Ty::Str)) {
        jobs.push(Job::new(format!("{}/refused", v.name), 0, move |c| {
            let n = *c.pick(&OVER_BIN);
            let pad = c.choose(if n > 1 << 62 { 1 } else { 2 });
            let mut b = vec![];
            wire::varint(&mut b, n, pad);
            b.extend([0x61u8; 64]);
            c.state(&b);
            let _ = v.read(&[0]);
            for stream in [false, true] {
                let (r, u) = measure(usize::MAX, || if stream { v.read_stream_bytes(&b) } else { v.read(&b) });
                c.compared(1);
                let ok = matches!(r.0, Err(Er::BinLen | Er::Io(_) | Er::Other(_) | Er::Number)) && u.total < 4096;
                c.check(ok && r.0 != Err(EOF), || format!("{}: a declared length of {n} gives {} and {u:?}", v.name, brief(&r.0)));
            }
            c.outcome("refused");
        }));
        jobs.push(Job::new(format!("{}/limit", v.name), 0, move |c| {
            let n = *c.pick(&[(16usize << 20) - 1, 16 << 20]);
            let mut b = vec![];
            wire::varint(&mut b, n as u64, 0);
            b.resize(b.len() + n, b'x');
            let m = if matches!(v.ty, Ty::Bin) { M::Bin(vec![b'x'; n]) } else { M::Str(vec![b'x'; n]) };
            for (src, r, used) in both(v, &b) {
                c.compared(1);
                c.check(r.as_ref() == Ok(&m) && used == b.len(), || format!("{}: {n} bytes from a {src}: {}", v.name, brief(&r.as_ref().map(|_| "a value"))));
            }
            let w = v.write(&m);
            c.check(w.as_ref() == Ok(&b), || format!("{}: writing {n} bytes: {:?}", v.name, w.as_ref().map(|x| x.len())));
            c.states_n(1);
            c.outcome("accepted");
        }));
        jobs.push(Job::new(format!("{}/write-over", v.name), 0, move |c| {
            let n = *c.pick(&[(16usize << 20) + 1, (16 << 20) + 2, 17 << 20]);
            let m = if matches!(v.ty, Ty::Bin) { M::Bin(vec![b'x'; n]) } else { M::Str(vec![b'x'; n]) };
            let w = v.write(&m);
            c.compared(1);
            c.states_n(1);
            c.check(w == Err(Er::BinLen), || format!("{}: writing {n} bytes: {:?}", v.name, w.as_ref().map(|x| x.len())));
            c.outcome("refused");
        }));
    }
    // in context: inside structs, lists and unions, and when skipped
    jobs.push(Job::new("nested-refused", 0, |c| {
        let (name, pre): (&str, &[u8]) = *c.pick(&[
            ("Small", &[0x15, 0x02, 0x18][..]),
            ("Choice", &[0x28]),
            ("Vec<String>", &[0x18]),
            ("Vec<Vec<u8>>", &[0x18]),
            ("AllOpt", &[0x78]),
            ("Empty", &[0x18]),
            ("Empty", &[0x19, 0x18]),
            ("Empty", &[0x1b, 0x01, 0x88]),
        ]);
        let v = named(&[name])[0];
        let n = *c.pick(&OVER_BIN);
        let mut b = pre.to_vec();
        wire::varint(&mut b, n, 0);
        b.extend([0x61u8; 40]);
        c.state(&b);
        for (src, stream) in [("slice", false), ("stream", true)] {
            let (r, u) = measure(usize::MAX, || if stream { v.read_stream_bytes(&b).0 } else { v.read(&b).0 });
            c.compared(1);
            c.check(r.is_err() && r != Err(EOF) && u.total < 4096, || format!("{name}: {} with a declared length of {n} ({src}) gives {} and {u:?}", hex(&b), brief(&r)));
        }
        c.outcome("refused");
    }));
    jobs.push(Job::new("skip-refused", 0, |c| {
        let coll = c.choose(2) == 1;
        let n = *c.pick(if coll { &OVER_COLL } else { &OVER_BIN });
        let mut b = vec![];
        let t = if !coll {
            8u8
        } else {
            *c.pick(&[9, 10, 11])
        };
        if t == 9 || t == 10 {
            b.push(0xF3);
        }
        wire::varint(&mut b, n, 0);
        if t == 11 {
            b.push(0x33);
        }
        b.extend([0x01u8; 64]);
        c.state(&b);
        for stream in [false, true] {
            let (r, u) = measure(usize::MAX, || if stream { skip_stream(t, &b) } else { skip_slice(t, &b) });
            c.compared(1);
            c.check(r.0.is_err() && r.0 != Err(EOF) && u.total < 4096, || format!("skipping type {t} with declared length {n}: {:?} and {u:?}", r.0));
        }
        c.outcome("refused");
    }));
    jobs.push(Job::new("skip-limit", 0, move |c| {
        let t = *c.pick(&[8u8, 9, 10, 11]);
        let max = if t == 8 { 16 << 20 } else { 10_000_000usize };
        let n = *c.pick(&[max - 1, max]);
        let mut b = vec![];
        if t == 9 || t == 10 {
            b.push(0xF3);
        }
        wire::varint(&mut b, n as u64, 0);
        if t == 11 {
            b.push(0x33);
        }
        let more = if t == 11 { 2 * n } else { n };
        b.resize(b.len() + more, 1);
        let len = b.len();
        b.push(7);
        for stream in [false, true] {
            let (r, used) = if stream { skip_stream(t, &b) } else { skip_slice(t, &b) };
            c.compared(1);
            c.check(r == Ok(()) && used == len, || format!("skipping type {t} of length {n}: {r:?} after {used} bytes"));
        }
        c.states_n(1);
        c.outcome("accepted");
    }));
    // lists
    for v in plain().filter(|v| matches!(v.ty, Ty::List(_)) && v.group == "list") {
        let Ty::List(t) = &v.ty else { continue };
        jobs.push(Job::new(format!("{}/refused", v.name), 0, move |c| {
            let n = *c.pick(&OVER_COLL);
            let mut b = vec![0xF0 + t.wire()];
            wire::varint(&mut b, n, 0);
            b.extend([0u8; 64]);
            c.state(&b);
            let _ = v.read(&[t.wire()]);
            for stream in [false, true] {
                let (r, u) = measure(usize::MAX, || if stream { v.read_stream_bytes(&b) } else { v.read(&b) });
                c.compared(1);
                c.check(r.0.is_err() && r.0 != Err(EOF) && r.0 != Err(Er::Reserve) && u.total < 4096, || {
                    format!("{}: a declared length of {n} gives {} and {u:?}", v.name, brief(&r.0))
                });
            }
            c.outcome("refused");
        }));
        // the allocator refuses what the length asks for
        jobs.push(Job::new(format!("{}/allocator", v.name), 0, move |c| {
            let cap = *c.pick(&[0usize, 7, 1 << 10, 1 << 20]);
            let n = *c.pick(&[1u64, 15, 1000, 100_000, 9_999_999, 10_000_000]);
            let mut b = vec![0xF0 + t.wire()];
            wire::varint(&mut b, n, 0);
            c.state(&[b.as_slice(), &cap.to_le_bytes()].concat());
            let _ = v.read(&[t.wire()]);
            for stream in [false, true] {
                // no element follows: with the reservation granted the input ends, without it there is an error too
                let (r, u) = measure(cap, || if stream { v.read_stream_bytes(&b).0 } else { v.read(&b).0 });
                c.compared(1);
                c.check(r.is_err(), || format!("{}: {n} elements declared, none sent: {}", v.name, brief(&r)));
                if let Err(Er::Panic(p)) = &r {
                    c.fail(format!("{}: {n} elements declared, requests above {cap} bytes refused: panic {p}", v.name));
                }
                c.outcome(if u.max_request > cap { "refused by the allocator" } else { "end of input" });
            }
        }));
    }
    for name in ["Vec<bool>", "Vec<i8>", "Vec<Empty>", "Vec<i32>", "Vec<String>"] {
        let v = named(&[name])[0];
        let Ty::List(t) = &v.ty else { continue };
        if !th && (name == "Vec<String>" || name == "Vec<Empty>") {
            continue;
        }
        jobs.push(Job::new(format!("{name}/limit"), 0, move |c| {
            let n = *c.pick(&[9_999_999usize, 10_000_000]);
            let mut b = vec![0xF0 + t.wire()];
            wire::varint(&mut b, n as u64, 0);
            let (byte, elem) = match **t {
                Ty::Bool => (1u8, M::Bool(true)),
                Ty::I8 => (5, M::I8(5)),
                Ty::I32 => (2, M::I32(1)),
                Ty::Str => (0, M::Str(vec![])),
                _ => (0, M::Struct(vec![])),
            };
            b.resize(b.len() + n, byte);
            let r = if c.choose(2) == 0 { v.read(&b) } else { v.read_stream_bytes(&b) };
            c.compared(1);
            c.states_n(1);
            let ok = matches!(&r.0, Ok(M::List(x)) if x.len() == n && x[0] == elem && x[n - 1] == elem) && r.1 == b.len();
            c.check(ok, || format!("{name}: {n} elements: {}", r.0.as_ref().map(|_| String::new()).unwrap_or_else(|e| format!("{e:?}"))));
            c.outcome("accepted");
        }));
    }
    for (name, n, elem) in [("Vec<bool>", 10_000_000usize, M::Bool(true)), ("Vec<bool>", 10_000_001, M::Bool(true)), ("Vec<i8>", 10_000_001, M::I8(1)), ("Vec<Empty>", 10_000_001, M::Struct(vec![])), ("Vec<bool>", 16_777_216, M::Bool(false))] {
        let v = named(&[name])[0];
        if !th && name != "Vec<bool>" {
            continue;
        }
        let elem = elem.clone();
        jobs.push(Job::new(format!("{name}/write/{n}"), 0, move |c| {
            let m = M::List(vec![elem.clone(); n]);
            let w = v.write(&m);
            c.compared(1);
            c.states_n(1);
            if n > 10_000_000 {
                c.check(w == Err(Er::CollLen), || format!("{name}: writing {n} elements gives {:?}", w.as_ref().map(|x| x.len())));
                c.outcome("refused");
            } else {
                let mut b = vec![0xF2];
                wire::varint(&mut b, n as u64, 0);
                b.resize(b.len() + n, 1);
                c.check(w.as_ref() == Ok(&b), || format!("{name}: writing {n} elements gives {:?}", w.as_ref().map(|x| x.len())));
                c.outcome("accepted");
            }
        }));
    }
    Plan::new(jobs, &[
        "every binary and string type: declared lengths 16 MiB - 1 and 16 MiB accepted, 10 lengths above refused with less than 4 KiB allocated, from slice and stream, alone, nested and skipped; writing likewise",
        "every list type: 10 declared lengths above 10000000 refused with less than 4 KiB allocated; 9999999 and 10000000 accepted for byte-sized elements; maps and sets when skipped",
        "every list type with an allocator refusing requests above 0, 7, 1 KiB, 1 MiB bytes, for 6 declared lengths",
    ])
}

// ---- R14, R15 ---------------------------------------------------------------------------------------------------

const KINDS: [ErrorKind; 4] = [ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::UnexpectedEof, ErrorKind::InvalidData];

struct Faulty<'c, 'a, 'b> {
    c: &'c mut Ctx<'a>,
    data: &'b [u8],
    pos: usize,
    failed: Option<ErrorKind>,
    after: usize,
}
impl Read for Faulty<'_, '_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.failed.is_some() {
            self.after += 1;
        }
        let left = self.data.len() - self.pos;
        let want = buf.len().min(left);
        // full, interrupted, end of stream, each error, then the shorter deliveries
        let shorts: &[usize] = if want > 2 { &[1, want - 1] } else if want == 2 { &[1] } else { &[] };
        let i = if want == 0 { 0 } else { self.c.dev(3 + KINDS.len() + shorts.len()) };
        let n = match i {
            0 => want,
            1 => return Err(ErrorKind::Interrupted.into()),
            2 => {
                self.failed = Some(ErrorKind::UnexpectedEof);
                self.pos = self.data.len();
                0
            }
            i if i < 3 + KINDS.len() => {
                self.failed = Some(KINDS[i - 3]);
                return Err(KINDS[i - 3].into());
            }
            i => shorts[i - 3 - KINDS.len()],
        };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn r14(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain() {
        for &sparse in bases(&v.ty) {
            let len = wire::canon(&to_w(&v.ty, &nth(&v.ty, 0))).len();
            let k = match (th, len) {
                (false, 0..=40) => 2,
                (false, _) => 1,
                (true, 0..=60) => 3,
                (true, _) => 2,
            };
            jobs.push(Job::new(format!("{}/{sparse}", v.name), k, move |c| {
                let i = c.choose(2);
                let m = if sparse { v.ty.default() } else { nth(&v.ty, i) };
                let mut b = wire::canon(&to_w(&v.ty, &m));
                let len = b.len();
                b.push(0xEE);
                let mut f = Faulty { c, data: &b, pos: 0, failed: None, after: 0 };
                let r = v.read_stream(&mut f);
                let (failed, pos, after) = (f.failed, f.pos, f.after);
                c.state(format!("{i} {failed:?} {pos} {}", c.deviations()).as_bytes());
                c.compared(1);
                let ok = match failed {
                    None => r.as_ref() == Ok(&m) && pos == len,
                    Some(k) => r == Err(Er::Io(k)) && after == 0,
                };
                if !ok {
                    c.fail(format!("{}: stream of {} with fault {failed:?}: {} after {pos} bytes, {after} reads after the fault", v.name, hex(&b[..len]), brief(&r)));
                }
                c.outcome(match failed {
                    None => "delivered in pieces",
                    Some(ErrorKind::UnexpectedEof) => "ended early",
                    Some(_) => "failed",
                });
            }));
        }
    }
    // skipping from a faulty stream
    let cat: &'static [W] = Box::leak(elems().into_boxed_slice());
    jobs.push(Job::new("skip", if th { 3 } else { 2 }, move |c| {
        let w = &cat[c.choose(cat.len())];
        let mut b = vec![];
        wire::encode(w, false, &mut wire::Canon, &mut b);
        let len = b.len();
        b.push(0xEE);
        let mut f = Faulty { c, data: &b, pos: 0, failed: None, after: 0 };
        let r = skip_reader(w.field_type(), &mut f);
        let (failed, pos) = (f.failed, f.pos);
        c.state(format!("{failed:?} {pos} {}", hex(&b)).as_bytes());
        c.compared(1);
        let ok = match failed {
            None => r == Ok(()) && pos == len,
            Some(k) => r == Err(Er::Io(k)),
        };
        c.check(ok, || format!("skipping {} with fault {failed:?}: {r:?} after {pos}", hex(&b[..len])));
        c.outcome("skipped or failed");
    }));
    // bounded pieces throughout
    for v in plain() {
        jobs.push(Job::new(format!("{}/pieces", v.name), 0, move |c| {
            struct Pieces<'b>(&'b [u8], usize, usize, bool);
            impl Read for Pieces<'_> {
                fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
                    if self.2 > 0 && !self.3 {
                        self.3 = true;
                        return Err(ErrorKind::Interrupted.into());
                    }
                    self.3 = false;
                    let n = buf.len().min(self.1).min(self.0.len());
                    buf[..n].copy_from_slice(&self.0[..n]);
                    self.0 = &self.0[n..];
                    Ok(n)
                }
            }
            let k = c.choose(3);
            let m = nth(&v.ty, k);
            let b = wire::canon(&to_w(&v.ty, &m));
            let mut p = Pieces(&b, 1 + c.choose(7), c.choose(2), false);
            let r = v.read_stream(&mut p);
            c.compared(1);
            c.state(&[b.as_slice(), &[p.1 as u8, p.2 as u8]].concat());
            c.check(r.as_ref() == Ok(&m), || format!("{}: {} in pieces of {} gives {}", v.name, hex(&b), p.1, brief(&r)));
            c.outcome("delivered in pieces");
        }));
    }
    jobs.extend(sizes::delivery(th));
    Plan::new(jobs, &[
        "long texts, binaries, lists and skipped values delivered in pieces of 12 sizes from 1 to everything, failing at or around every power of two",
        "every subject type, two values from each base; every read call answered in full, short (1 or all but 1 byte), with an interruption, an early end or one of 4 error kinds; all executions with at most 2 (thorough 3) such deviations for encodings up to 40 (60) bytes, else 1 (2)",
        "delivery in pieces of 1..=7 bytes, with an interruption before each",
    ])
}

struct Sink<'c, 'a> {
    c: &'c mut Ctx<'a>,
    got: Vec<u8>,
    failed: Option<ErrorKind>,
    after: usize,
}
impl Write for Sink<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed.is_some() {
            self.after += 1;
        }
        let shorts: &[usize] = if buf.len() > 2 { &[1, buf.len() - 1] } else if buf.len() == 2 { &[1] } else { &[] };
        let i = self.c.dev(3 + KINDS.len() + shorts.len());
        let n = match i {
            0 => buf.len(),
            1 => return Err(ErrorKind::Interrupted.into()),
            2 => {
                self.failed = Some(ErrorKind::WriteZero);
                0
            }
            i if i < 3 + KINDS.len() => {
                self.failed = Some(KINDS[i - 3]);
                return Err(KINDS[i - 3].into());
            }
            i => shorts[i - 3 - KINDS.len()],
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn r15(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in env().all.iter() {
        for &sparse in bases(&v.ty) {
            let len = wire::canon(&to_w(&v.ty, &nth(&v.ty, 0))).len();
            let k = match (th, len) {
                (false, 0..=40) => 2,
                (false, _) => 1,
                (true, 0..=60) => 3,
                (true, _) => 2,
            };
            jobs.push(Job::new(format!("{}/{sparse}", v.name), k, move |c| {
                let i = c.choose(2);
                let m = if sparse { v.ty.default() } else { nth(&v.ty, i) };
                let full = written(c, v, &m);
                let mut s = Sink { c, got: vec![], failed: None, after: 0 };
                let r = v.write_to(&m, &mut s);
                let (failed, got, after) = (s.failed, std::mem::take(&mut s.got), s.after);
                c.state(format!("{i} {failed:?} {} {}", got.len(), c.deviations()).as_bytes());
                c.compared(1);
                let ok = match failed {
                    None => r == Ok(()) && got == full,
                    Some(k) => r == Err(Er::Io(k)) && after == 0 && full.starts_with(&got),
                };
                if !ok {
                    c.fail(format!(
                        "{}: writing {} to a sink with fault {failed:?}: {r:?}, delivered {} of {}, {after} writes after the fault",
                        v.name,
                        brief(&m),
                        hex(&got),
                        hex(&full)
                    ));
                }
                c.outcome(match failed {
                    None => "all delivered",
                    Some(_) => "failure reported",
                });
            }));
        }
        jobs.push(Job::new(format!("{}/pieces", v.name), 0, move |c| {
            struct Pieces(Vec<u8>, usize, usize, bool);
            impl Write for Pieces {
                fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                    if self.2 > 0 && !self.3 {
                        self.3 = true;
                        return Err(ErrorKind::Interrupted.into());
                    }
                    self.3 = false;
                    let n = buf.len().min(self.1);
                    self.0.extend_from_slice(&buf[..n]);
                    Ok(n)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let k = c.choose(3);
            let m = nth(&v.ty, k);
            let full = written(c, v, &m);
            let mut p = Pieces(vec![], 1 + c.choose(7), c.choose(2), false);
            let r = v.write_to(&m, &mut p);
            c.compared(1);
            c.state(&[full.as_slice(), &[p.1 as u8, p.2 as u8]].concat());
            c.check(r == Ok(()) && p.0 == full, || format!("{}: {} in pieces of {} gives {r:?} and {}", v.name, brief(&m), p.1, hex(&p.0)));
            c.outcome("all delivered");
        }));
    }
    // a sink with room for exactly n bytes
    for v in env().all.iter() {
        jobs.push(Job::new(format!("{}/room", v.name), 0, move |c| {
            let m = nth(&v.ty, 0);
            let full = written(c, v, &m);
            let n = c.choose(full.len() + 1);
            let mut room = vec![0u8; n];
            let mut s: &mut [u8] = &mut room;
            let r = v.write_to(&m, &mut s);
            let left = s.len();
            c.compared(1);
            c.state(&room);
            let ok = if n == full.len() { r == Ok(()) && left == 0 && room == full } else { r == Err(Er::Io(ErrorKind::WriteZero)) && full.starts_with(&room[..n - left]) };
            c.check(ok, || format!("{}: {} bytes of room for {}: {r:?}, {}", v.name, n, hex(&full), hex(&room)));
            c.outcome("room");
        }));
    }
    jobs.extend(sizes::sinks(th));
    Plan::new(jobs, &[
        "long texts, binaries and lists to sinks taking pieces of 12 sizes, failing at or around every power of two",
        "every subject type, two values from each base; every write call answered in full, short, with an interruption, with zero or one of 4 error kinds; all executions with at most 2 (thorough 3) deviations for encodings up to 40 (60) bytes, else 1 (2)",
        "sinks taking 1..=7 bytes at a time with interruptions; sinks with room for every number of bytes",
    ])
}

// ---- R16 ------------------------------------------------------------------------------------------------------

pub fn r16(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain() {
        for &sparse in bases(&v.ty) {
            let k = if th { bound(&v.ty, 10.0, 1e5, 2) } else { 1 };
            jobs.push(Job::new(format!("{}/{sparse}", v.name), k, move |c| {
                let m = value(c, &v.ty, sparse);
                let w = to_w(&v.ty, &m);
                let mut b = vec![];
                // the forms take part in the deviations
                wire::encode(&w, true, &mut AnyForm { c }, &mut b);
                c.sample(|| format!("all {} prefixes of {}", b.len(), hex(&b)));
                let step = if b.len() > 400 && !th { 7 } else { 1 };
                let mut cnt = 0;
                for n in (0..b.len()).step_by(step) {
                    for (src, r, _) in both(v, &b[..n]) {
                        if r != Err(EOF) {
                            c.fail(format!("{}: the first {n} of the {} bytes {} read from a {src} give {}", v.name, b.len(), hex(&b), brief(&r)));
                        }
                    }
                    cnt += 1;
                }
                c.states_n(cnt);
                c.compared(2 * cnt);
                c.outcome_n("prefixes rejected", cnt);
            }));
        }
    }
    let cat: &'static [W] = Box::leak(wire_catalogue().into_boxed_slice());
    jobs.push(Job::new("skip", if th { 2 } else { 1 }, move |c| {
        let w = &cat[c.choose(cat.len())];
        let mut b = vec![];
        wire::encode(w, false, &mut AnyForm { c }, &mut b);
        for n in 0..b.len() {
            for (src, (r, _)) in [("slice", skip_slice(w.field_type(), &b[..n])), ("stream", skip_stream(w.field_type(), &b[..n]))] {
                if r != Err(EOF) {
                    c.fail(format!("skipping the first {n} of the {} bytes {} of {} ({src}) gives {r:?}", b.len(), hex(&b), brief(w)));
                }
            }
        }
        let n = b.len() as u64;
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("prefixes rejected", n);
    }));
    jobs.push(Job::new("skip/integers", 0, |c| {
        let n = c.choose(41);
        let x = *c.pick(&[0x80u8, 0xFF]);
        let b = vec![x; n];
        let t = *c.pick(&[4u8, 5, 6]);
        c.state(&b);
        for (src, (r, _)) in [("slice", skip_slice(t, &b)), ("stream", skip_stream(t, &b))] {
            c.compared(1);
            c.check(r == Err(EOF), || format!("skipping type {t} in {} ({src}), an integer without end, gives {r:?}", hex(&b)));
        }
        c.outcome("prefixes rejected");
    }));
    jobs.push(Job::new("skip/integer-elements", 0, |c| {
        // the last of several integers is cut off, at the end of a buffer of any length
        let t = *c.pick(&[4u8, 5, 6]);
        let n = 1 + c.choose(14);
        let cut = c.choose(20);
        let mut b = vec![(n as u8) * 16 + t];
        for _ in 1..n {
            b.push(0x02);
        }
        b.extend(vec![0x80u8; cut]);
        c.state(&b);
        for (src, (r, _)) in [("slice", skip_slice(9, &b)), ("stream", skip_stream(9, &b))] {
            c.compared(1);
            c.check(r == Err(EOF), || format!("skipping the list {} ({src}) gives {r:?}", hex(&b)));
        }
        c.outcome("prefixes rejected");
    }));
    jobs.extend(sizes::cut(th));
    Plan::new(jobs, &[
        "long lists, texts and binaries (up to 65537 elements, 16 MiB) cut at every power of two and at both ends",
        "every proper prefix of every encoding with at most 1 (thorough up to 2) deviations in value and form, of every subject type, from slice and stream (quick: every seventh for encodings above 400 bytes)",
        "every proper prefix of every catalogue value in forms with at most 1 (2) deviations when skipped; unterminated integers of 0..=40 bytes",
    ])
}

// ---- R19 ------------------------------------------------------------------------------------------------------

pub fn r19(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in plain().filter(|v| !v.option && !matches!(v.ty, Ty::Struct(_)) && !matches!(v.ty, Ty::Named(_))) {
        // reading a list of structs into an existing list is covered too; struct fields of an existing struct are not
        let k = if th { 3 } else { 2 };
        jobs.push(Job::new(format!("{}/refill", v.name), k, move |c| {
            let old = value(c, &v.ty, false);
            let new = {
                let g = Gen { max_len: 16 };
                g.gen(c, &v.ty, 5)
            };
            let b = wire::canon(&to_w(&v.ty, &new));
            let fresh = v.read(&b);
            c.state(&[b.as_slice(), brief(&old).as_bytes()].concat());
            let as_field = v.ty.wire() != wire::BOOL && c.choose(2) == 1;
            let (r, after, n) = if as_field { v.fill_field(&old, v.ty.wire(), &b) } else { v.fill(&old, &b) };
            c.compared(1);
            let ok = r == Ok(()) && after == new && n == b.len() && fresh.0.as_ref() == Ok(&new);
            c.check(ok, || format!("{}: {} filled from {} ({}) becomes {} ({r:?}, {n} bytes); a fresh one reads as {}", v.name, brief(&old), hex(&b), brief(&new), brief(&after), brief(&fresh.0)));
            c.outcome("replaced");
        }));
    }
    for v in plain().filter(|v| v.option) {
        jobs.push(Job::new(format!("{}/duplicate", v.name), if th { 2 } else { 1 }, move |c| {
            let old = value(c, &v.ty, false);
            let g = Gen { max_len: 16 };
            let new = g.gen(c, &v.ty, 5);
            let b = wire::canon(&to_w(&v.ty, &new));
            c.state(&[b.as_slice(), brief(&old).as_bytes()].concat());
            let t = if v.ty.wire() == wire::BOOL { 1 + c.choose(2) as u8 } else { v.ty.wire() };
            for (how, (r, after, _)) in [("value", v.fill(&old, &b)), ("field", v.fill_field(&old, t, &b))] {
                c.compared(1);
                c.check(r == Err(Er::Dup) && after == old, || format!("{}: {} filled as a {how} from {} gives {r:?} and {}", v.name, brief(&old), hex(&b), brief(&after)));
            }
            // and an absent one takes the value
            let (r, after, n) = v.fill(&M::None, &b);
            c.check(r == Ok(()) && after == new && n == b.len(), || format!("{}: none filled from {} gives {r:?} and {}", v.name, hex(&b), brief(&after)));
            c.outcome("duplicate");
        }));
    }
    jobs.push(Job::new("shared-handles", 0, crate::shared::shared));
    Plan::new(jobs, &[
        "every type that is no struct: all pairs of an old and a new value with at most 2 (thorough 3) deviations between them, filled in place as value and as field",
        "every optional type: a set one filled again, as value and as field; an unset one filled",
        "reference-counted values of 14 types: 0 or more other strong and weak handles, filled as value and as field; other handles observed before and after",
    ])
}

// ---- R20 ------------------------------------------------------------------------------------------------------

pub fn r20(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let ctors: std::collections::HashMap<&'static str, fn(&M) -> M> = crate::defs::constructors().into_iter().collect();
    for v in env().all.iter().filter(|v| matches!(v.group, "def" | "layout" | "set")) {
        let ctor = ctors.get(v.name.as_str()).copied();
        jobs.push(Job::new(format!("{}/default", v.name), 0, move |c| {
            let d = v.default();
            c.compared(1);
            c.state(v.name.as_bytes());
            let want = v.ty.default();
            c.check(d.as_ref() == Ok(&want), || format!("{}: default is {} instead of {}", v.name, brief(&d), brief(&want)));
            c.outcome("default");
        }));
        if let Some(f) = ctor {
            let k = if th { bound(&v.ty, 0.0, 1e6, 3) } else { bound(&v.ty, 0.0, 3e4, 2) };
            for &sparse in bases(&v.ty) {
                jobs.push(Job::new(format!("{}/new/{sparse}", v.name), k, move |c| {
                    let m = value(c, &v.ty, sparse);
                    let r = guard(|| f(&m));
                    c.compared(1);
                    c.state(brief(&m).as_bytes());
                    c.sample(|| brief(&m));
                    c.check(r.as_ref() == Ok(&m), || format!("{}::new with {} builds {}", v.name, brief(&m), brief(&r)));
                    c.outcome("constructed");
                }));
            }
        }
        if let Ty::Enum(_) = &v.ty {
            jobs.push(Job::new(format!("{}/numbers", v.name), 0, move |c| {
                // every number, declared or not, is kept
                let e: Vec<i64> = i64_edges(32);
                let hi = c.choose(e.len());
                let mut n = 0;
                for d in -300i64..=300 {
                    let x = (e[hi] + d).clamp(i32::MIN as i64, i32::MAX as i64) as i32;
                    let m = M::I32(x);
                    let mut b = vec![];
                    wire::varint(&mut b, wire::zigzag(x as i64), 0);
                    let w = v.write(&m);
                    c.check(w.as_ref() == Ok(&b), || format!("{}: {x} is written as {w:?}", v.name));
                    for (src, r, _) in both(v, &b) {
                        c.check(r.as_ref() == Ok(&m), || format!("{}: {x} is read from a {src} as {r:?}", v.name));
                    }
                    n += 1;
                }
                c.states_n(n);
                c.compared(3 * n);
                c.outcome_n("enum numbers kept", n);
            }));
        }
    }
    jobs.push(Job::new("enum-constants", 0, |c| {
        let mut want = vec![];
        for n in &env().idl.order {
            if let Ty::Enum(e) = env().idl.def(n) {
                for (k, x) in &e.consts {
                    want.push((format!("{}::{k}", e.name), *x));
                }
            }
        }
        let got: Vec<(String, i32)> = crate::defs::constants().into_iter().map(|(n, x)| (n.to_string(), x)).collect();
        let (mut a, mut b) = (want, got);
        a.sort();
        b.sort();
        c.states_n(a.len() as u64);
        c.compared(a.len() as u64);
        c.check(a == b, || format!("enum constants are {b:?}, declared {a:?}"));
        c.outcome("constants");
    }));
    Plan::new(jobs, &[
        "every definition: default value; constructor on all values with at most K deviations (K <= 2, thorough 3) from two bases, each argument distinct",
        "every enum: declared constants, and all numbers within 300 of every boundary written and read back",
    ])
}
