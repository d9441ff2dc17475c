//! P01, P02, P07: the structures themselves.
use crate::defs;
use crate::kit::*;
use crate::subject::*;
use mc::cli::Plan;
use mc::explore::{Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{to_w, Idl, Ty, M};
use mc::wire::{self, W};
use std::sync::OnceLock;

pub fn idl() -> &'static Idl {
    static I: OnceLock<Idl> = OnceLock::new();
    I.get_or_init(|| Idl::parse(defs::IDL))
}
pub fn all() -> &'static [Vt] {
    static A: OnceLock<Vec<Vt>> = OnceLock::new();
    A.get_or_init(|| defs::subjects(idl()))
}
fn tag(sparse: bool) -> &'static str {
    if sparse {
        "sparse"
    } else {
        "full"
    }
}

pub fn p01(th: bool) -> Plan<'static> {
    let (budget, max) = if th { (1e6, 3) } else { (1.2e4, 2) };
    let mut jobs = vec![];
    let small: &'static [W] = Box::leak(elems().into_boxed_slice());
    for v in all() {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}/values", v.name, tag(sparse)), bound(&v.ty, 20.0, budget, max), move |c| {
                let m = value(c, &v.ty, sparse);
                let mut b = vec![];
                wire::encode(&to_w(&v.ty, &m), true, &mut AnyForm { c }, &mut b);
                c.sample(|| format!("{} = {}", hex(&b), brief(&m)));
                accepts(c, v, &m, &b);
            }));
            jobs.push(Job::new(format!("{}/{}/unusual", v.name, tag(sparse)), 0, move |c| {
                let m = if sparse { v.ty.default() } else { nth(&v.ty, 0) };
                let b = wire::canon(&unusual(c, &to_w(&v.ty, &m), th));
                for side in [Side::MustReject, Side::MustAccept] {
                    let s = v.read_stream_bytes(&b);
                    judge(c, v, &b, s, side);
                }
            }));
            if matches!(v.ty, Ty::Struct(_) | Ty::Union(_)) {
                jobs.push(Job::new(format!("{}/{}/unknown", v.name, tag(sparse)), 0, move |c| with_unknown(c, v, sparse, small, false, th, th)));
            }
            // what is not a valid encoding is not read
            jobs.push(Job::new(format!("{}/{}/mutated", v.name, tag(sparse)), 0, move |c| {
                let k = c.choose(2);
                let m = if sparse { v.ty.default() } else { nth(&v.ty, k) };
                let b = wire::canon(&to_w(&v.ty, &m));
                if b.len() > 400 && !th {
                    return;
                }
                let b = if b.len() > 60 && !th { changed(c, &b) } else { mutated(c, &b, ALPHA) };
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, Side::MustReject);
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, Side::MustAccept);
            }));
        }
        if let Ty::Struct(d) = &v.ty {
            // every combination of up to two fields left out, and every field alone
            let n = d.fields.len();
            jobs.push(Job::new(format!("{}/presence", v.name), 0, move |c| {
                let (i, j, invert) = (c.choose(n + 1), c.choose(n + 1), c.choose(2) == 1);
                let full = to_w(&v.ty, &nth(&v.ty, 0));
                let W::Struct(fs) = full else { unreachable!() };
                let keep: Vec<(i16, W)> = fs.into_iter().enumerate().filter(|(k, _)| (*k == i || *k == j) == invert).map(|(_, f)| f).collect();
                let b = wire::canon(&W::Struct(keep));
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, Side::MustReject);
                let s = v.read_stream_bytes(&b);
                judge(c, v, &b, s, Side::MustAccept);
                let mc::ty::Verdict::Reject(mc::ty::Rej::Missing(name), _) = mc::ty::model_read(&v.ty, &b) else { return };
                let r = v.read(&b).0;
                c.check(r == Err(Er::Missing(name.clone())), || format!("{}: {} lacks {name}, but reading it gives {}", v.name, hex(&b), brief(&r)));
            }));
        }
        if let Ty::Union(d) = &v.ty {
            let known: Vec<i16> = d.fields.iter().map(|f| f.id).collect();
            jobs.push(Job::new(format!("{}/members", v.name), 0, move |c| {
                let id = c.choose(42) as i16 - 1;
                if known.contains(&id) {
                    return;
                }
                let el = elems();
                let x = c.pick(&el).clone();
                let b = wire::canon(&W::Struct(vec![(id, x)]));
                c.state(&b);
                for (src, r, _) in both(v, &b) {
                    c.compared(1);
                    c.check(r.is_err(), || format!("{}: member {id} is not published, but {} is read from a {src} as {}", v.name, hex(&b), brief(&r)));
                }
                c.outcome("unpublished members rejected");
            }));
        }
    }
    jobs.push(Job::new("constants", 0, |c| {
        let k = c.choose(defs::constants().len());
        let (name, is, want) = defs::constants()[k];
        c.state(name.as_bytes());
        c.compared(1);
        c.check(is == want, || format!("{name} is {is}, published as {want}"));
        c.outcome("constants");
    }));
    // the two fields left out, as other writers send them
    jobs.push(Job::new("ColumnMetaData/left-out", 1, |c| {
        let v = all().iter().find(|v| v.name == "ColumnMetaData").unwrap();
        let m = value(c, &v.ty, false);
        let W::Struct(mut fs) = to_w(&v.ty, &m) else { unreachable!() };
        let path = *c.pick(&[0usize, 1, 2, 15]);
        let p3 = W::List(wire::BIN, vec![W::Bin(b"col".to_vec()); path]);
        let p10 = W::I64(*c.pick(&[0i64, 4, -1, i64::MAX]));
        let at3 = fs.iter().position(|f| f.0 > 3).unwrap_or(fs.len());
        fs.insert(at3, (3, p3));
        if c.choose(2) == 1 {
            let at10 = fs.iter().position(|f| f.0 > 10).unwrap_or(fs.len());
            fs.insert(at10, (10, p10));
        }
        let b = wire::canon(&W::Struct(fs));
        accepts(c, v, &m, &b);
    }));
    Plan::new(jobs, &[
        "all 63 definitions of the published metadata; values with at most K deviations from all-present and all-absent crossed with encoding forms (order, header forms, padding)",
        "unknown fields of 15 kinds at any position; one byte of a valid encoding replaced, removed, inserted or cut; any two fields left out and any two fields alone; 42 union member ids; all published constants",
        if th { "budget 1000000, K <= 3" } else { "budget 12000, K <= 2; byte changes of encodings above 60 bytes: 8 values per byte, above 400 bytes only in thorough" },
    ])
}

/// One byte changed to one of a few values, or the rest cut off: for long encodings.
fn changed(c: &mut Ctx, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let i = c.choose(b.len());
    match c.choose(9) {
        0 => b.truncate(i),
        1 => b[i] = b[i].wrapping_add(1),
        2 => b[i] = b[i].wrapping_sub(1),
        3 => b[i] ^= 0x80,
        4 => b[i] ^= 0x10,
        5 => b[i] = 0,
        6 => b[i] = 0xFF,
        7 => b[i] = b[i].rotate_left(4),
        _ => {
            b.remove(i);
        }
    }
    b
}

pub fn p02(th: bool) -> Plan<'static> {
    let (budget, max) = if th { (3e6, 4) } else { (3e4, 3) };
    let mut jobs = vec![];
    for v in all() {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}", v.name, tag(sparse)), bound(&v.ty, 0.0, budget, max), move |c| {
                let m = value(c, &v.ty, sparse);
                conforms(c, v, &m);
                round_trip(c, v, &m);
            }));
            jobs.push(Job::new(format!("{}/{}/unusual", v.name, tag(sparse)), 0, move |c| {
                if let Some(m) = unusual_value(c, &v.ty, sparse, th) {
                    conforms(c, v, &m);
                    round_trip(c, v, &m);
                }
            }));
        }
        // every subset of the optional fields
        if let Ty::Struct(d) = &v.ty {
            let opt = d.fields.iter().filter(|f| !f.required).count();
            if opt > 0 && opt <= 12 {
                jobs.push(Job::new(format!("{}/optionals", v.name), 0, move |c| {
                    let M::Struct(mut f) = nth(&v.ty, 1) else { unreachable!() };
                    for (i, d) in d.fields.iter().enumerate() {
                        if !d.required && c.choose(2) == 0 {
                            f[i] = M::None;
                        }
                    }
                    let m = M::Struct(f);
                    conforms(c, v, &m);
                    round_trip(c, v, &m);
                }));
            }
        }
    }
    Plan::new(jobs, &[
        "values with one number, text or list replaced by one of up to 55 unusual ones, lists up to 70000 elements",
        "all 63 definitions; values with at most K deviations from all-present and all-absent; all subsets of the optional fields; the bytes decoded by an independent decoder and compared with published ids, wire types and values, then read back from slice and stream with 4 suffixes",
        if th { "budget 3000000, K <= 4" } else { "budget 30000, K <= 3" },
    ])
}

/// A value or an error; a value is written and read again unchanged.
fn survives(c: &mut Ctx, v: &Vt, b: &[u8], from_stream: Option<Result<M, Er>>) {
    c.state(b);
    let (r, n) = v.read(b);
    let s = from_stream.unwrap_or_else(|| v.read_stream_bytes(b).0);
    c.compared(2);
    c.check(n <= b.len(), || format!("{}: reading {} consumes {n}", v.name, hex(b)));
    for (src, r) in [("slice", r), ("stream", s)] {
        match r {
            Err(Er::Panic(p)) => c.fail(format!("{}: reading {} from a {src} panics: {p}", v.name, hex(b))),
            Err(_) => c.outcome("an error"),
            Ok(m) => {
                let w = match v.write(&m) {
                    Ok(w) => w,
                    Err(e) => c.fail(format!("{}: {} was read from {} but cannot be written: {e:?}", v.name, brief(&m), hex(b))),
                };
                let (again, k) = v.read(&w);
                c.compared(1);
                if again.as_ref() != Ok(&m) || k != w.len() {
                    c.fail(format!("{}: {} was read from {}, written as {} and read again as {}", v.name, brief(&m), hex(b), hex(&w), brief(&again)));
                }
                c.outcome("a value that survives rewriting");
            }
        }
    }
}

/// The metadata of the sample file of the repository, or (if it is gone) something similar.
pub fn sample_metadata() -> Vec<u8> {
    let f = std::fs::read("/repo/parquet/data/alltypes_tiny_pages.parquet").unwrap_or_default();
    if f.len() > 12 && &f[f.len() - 4..] == b"PAR1" {
        let n = u32::from_le_bytes(f[f.len() - 8..f.len() - 4].try_into().unwrap()) as usize;
        if n + 8 <= f.len() {
            return f[f.len() - 8 - n..f.len() - 8].to_vec();
        }
    }
    let v = all().iter().find(|v| v.name == "FileMetaData").unwrap();
    mc::ty::encode(&v.ty, &nth(&v.ty, 3))
}

pub fn p07(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for v in all() {
        let big = v.name == "FileMetaData" || v.name == "RowGroup" || v.name == "ColumnChunk";
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}/mutated", v.name, tag(sparse)), 0, move |c| {
                let k = c.choose(if th { 3 } else { 1 });
                let m = if sparse { v.ty.default() } else { nth(&v.ty, k) };
                let b = wire::canon(&to_w(&v.ty, &m));
                let mut b = if b.len() > 120 && !th { changed(c, &b) } else { mutated(c, &b, ALPHA) };
                if th && b.len() < 10 {
                    b = mutated(c, &b, ALPHA);
                }
                survives(c, v, &b, None);
            }));
        }
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/{}/twice", v.name, tag(sparse)), 0, move |c| {
                let b = wire::canon(&to_w(&v.ty, &if sparse { v.ty.default() } else { nth(&v.ty, 0) }));
                if b.len() <= if th { 60 } else { 20 } {
                    let b = changed(c, &b);
                    if !b.is_empty() {
                        let b = changed(c, &b);
                        survives(c, v, &b, None);
                    }
                }
            }));
            jobs.push(Job::new(format!("{}/{}/lengths", v.name, tag(sparse)), 0, move |c| {
                let w = to_w(&v.ty, &if sparse { v.ty.default() } else { nth(&v.ty, 0) });
                let Some(b) = lying(c, &w, th) else { return };
                survives(c, v, &b, None);
            }));
            jobs.push(Job::new(format!("{}/{}/unusual", v.name, tag(sparse)), 0, move |c| {
                let w = to_w(&v.ty, &if sparse { v.ty.default() } else { nth(&v.ty, 0) });
                let w = unusual(c, &w, th);
                let w = if th && wire::canon(&w).len() < 100 { unusual(c, &w, false) } else { w };
                survives(c, v, &wire::canon(&w), None);
            }));
        }
        if matches!(v.ty, Ty::Struct(_)) {
            let period = if th { 5 } else if big { 4 } else { 3 };
            jobs.push(Job::new(format!("{}/nested", v.name), 0, move |c| {
                let (t, inner) = nested(c, period, 200_000);
                let mut b = vec![t];
                wire::varint(&mut b, wire::zigzag(1000), 0);
                b.extend_from_slice(&inner);
                let from_stream = c.choose(2) == 1;
                c.state(&b[..24]);
                c.compared(1);
                let r = on_small_stack(|| if from_stream { v.read_stream_bytes(&b).0 } else { v.read(&b).0 });
                if let Err(Er::Panic(p)) = r {
                    c.fail(format!("{}: an unknown field nested over {} panics: {p}", v.name, hex(&b)));
                }
                c.outcome("survived deep nesting");
            }));
        }
        let (full, max) = if th { (2, 4) } else { (1, 4) };
        jobs.push(Job::new(format!("{}/bytes", v.name), 0, move |c| {
            let mut l = Lazy { c, bytes: vec![], full, max, alpha: ALPHA, eof: false, reads_after_eof: 0 };
            let r = v.read_stream(&mut l);
            let (b, extra) = (std::mem::take(&mut l.bytes), l.reads_after_eof);
            c.check(extra <= 1, || format!("{}: {extra} end-of-stream answers were ignored while reading {}", v.name, hex(&b)));
            survives(c, v, &b, Some(r));
        }));
    }
    // real metadata, corrupted
    let real: &'static [u8] = Box::leak(sample_metadata().into_boxed_slice());
    jobs.push(Job::new("sample", 0, move |c| {
        let v = all().iter().find(|v| v.name == "FileMetaData").unwrap();
        let b = if th { mutated(c, real, ALPHA) } else { changed(c, real) };
        survives(c, v, &b, None);
    }));
    jobs.push(Job::new("sample/whole", 0, move |c| {
        let v = all().iter().find(|v| v.name == "FileMetaData").unwrap();
        let (r, n) = v.read(real);
        c.check(r.is_ok() && n == real.len(), || format!("the sample file's metadata gives {} after {n}", brief(&r)));
        let mc::ty::Verdict::Accept { m, .. } = mc::ty::model_read(&v.ty, real) else { return };
        c.check(r == Ok(m), || "the sample file's metadata is not read as the reference decoder reads it".into());
        survives(c, v, real, None);
    }));
    Plan::new(jobs, &[
        "one announced length replaced by 30 (90) others up to 2^63, short and padded; one number, text or list (thorough: two) replaced by one of up to 55 unusual ones, lists up to 70000 elements; encodings of at most 20 (60) bytes with two bytes changed in 9 ways each",
        "an unknown field of each struct nested over 200000 bytes, struct fields, list and set elements, map keys and values with every period up to 3 (FileMetaData, RowGroup, ColumnChunk 4; thorough 5), on a 512 KiB stack",
        "valid encodings of all 63 definitions with any one byte replaced by any value, removed, inserted, or the rest cut (encodings above 120 bytes in quick: 8 changes per byte); thorough: 3 values each, two changes for encodings below 10 bytes",
        "lazily chosen bytes: all 256 values for the first (thorough: first two), then 16 values, up to 4 bytes",
        "the metadata of the repository's sample file with one byte changed in 9 ways (thorough: any value) at every position",
        "every value that is read is written and read again",
    ])
}
