//! Generic checks over any declared types, shared by the runtime and the Parquet harness.
#![allow(dead_code)]
use crate::subject::*;
use mc::explore::{Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{model_read, to_w, Def, Ty, Verdict, M};
use mc::wire::{self, Form, W};
use std::io::Read;
use std::sync::Arc;

pub fn brief<T: std::fmt::Debug>(x: &T) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 300 {
        s.truncate((0..=300).rev().find(|i| s.is_char_boundary(*i)).unwrap());
        s.push_str("..");
    }
    s
}

/// Number of single deviations `Gen::gen` offers for a type.
pub fn weight(ty: &Ty) -> f64 {
    match ty {
        Ty::List(t) | Ty::Set(t) => 8.0 + 2.0 * weight(t),
        Ty::Struct(d) => d.fields.iter().map(|f| weight(&f.ty) + if f.required { 0.0 } else { 1.0 }).sum(),
        Ty::Union(d) => d.fields.len() as f64 + d.fields.iter().map(|f| weight(&f.ty)).fold(0.0, f64::max),
        Ty::Bool => 2.0,
        _ => scalars(ty).len() as f64,
    }
}
/// Largest deviation bound up to max whose executions stay within the budget.
pub fn bound(ty: &Ty, extra: f64, budget: f64, max: u32) -> u32 {
    let l = weight(ty) + extra;
    let (mut k, mut n) = (1, l);
    while k < max {
        n *= l / (k + 1) as f64;
        if n > budget {
            break;
        }
        k += 1;
    }
    k
}
pub fn has_optional(ty: &Ty) -> bool {
    match ty {
        Ty::List(t) | Ty::Set(t) => has_optional(t),
        Ty::Struct(d) => d.fields.iter().any(|f| !f.required || has_optional(&f.ty)),
        Ty::Union(d) => d.fields.iter().any(|f| has_optional(&f.ty)),
        _ => false,
    }
}
/// The bases values deviate from: everything present, and everything optional absent.
pub fn bases(ty: &Ty) -> &'static [bool] {
    if has_optional(ty) {
        &[false, true]
    } else {
        &[false]
    }
}
pub fn value(c: &mut Ctx, ty: &Ty, sparse: bool) -> M {
    let g = Gen::default();
    if sparse {
        g.gen_sparse(c, ty, 1)
    } else {
        g.gen(c, ty, 0)
    }
}
pub fn written(c: &mut Ctx, v: &Vt, m: &M) -> Vec<u8> {
    match v.write(m) {
        Ok(b) => b,
        Err(e) => c.fail(format!("{}: writing {} fails: {e:?}", v.name, brief(m))),
    }
}


pub const SUFFIXES: [&[u8]; 4] = [&[], &[0], &[0x15, 0x80, 0xFF], &[0xFF; 20]];

pub fn round_trip(c: &mut Ctx, v: &Vt, m: &M) {
    let b = written(c, v, m);
    c.state(&b);
    c.sample(|| format!("{} as {} with 4 suffixes", brief(m), hex(&b)));
    for s in SUFFIXES {
        let mut buf = b.clone();
        buf.extend_from_slice(s);
        for stream in [false, true] {
            let (r, n) = if stream { v.read_stream_bytes(&buf) } else { v.read(&buf) };
            c.compared(1);
            if r.as_ref() != Ok(m) || n != b.len() {
                c.fail(format!(
                    "{}: wrote {} as {}; reading it back from a {} with {} bytes after it gives {} and consumes {n}",
                    v.name,
                    brief(m),
                    hex(&b),
                    if stream { "stream" } else { "slice" },
                    s.len(),
                    brief(&r)
                ));
            }
        }
    }
    c.outcome("round trips");
}


pub fn normal(w: W) -> W {
    let b = |t: u8| if t == 1 { 2 } else { t };
    match w {
        W::List(t, v) => W::List(b(t), v.into_iter().map(normal).collect()),
        W::Set(t, v) => W::Set(b(t), v.into_iter().map(normal).collect()),
        W::Struct(v) => {
            let mut v: Vec<(i16, W)> = v.into_iter().map(|(i, w)| (i, normal(w))).collect();
            v.sort_by_key(|x| x.0);
            W::Struct(v)
        }
        w => w,
    }
}
pub fn sets_as_lists(w: W) -> W {
    match w {
        W::List(t, v) | W::Set(t, v) => W::List(if t == wire::SET { wire::LIST } else { t }, v.into_iter().map(sets_as_lists).collect()),
        W::Struct(v) => W::Struct(v.into_iter().map(|(i, w)| (i, sets_as_lists(w))).collect()),
        w => w,
    }
}

pub fn conforms(c: &mut Ctx, v: &Vt, m: &M) {
    let b = written(c, v, m);
    c.state(&b);
    c.compared(1);
    let want = normal(to_w(&v.ty, m));
    match wire::decode_all(&b, v.ty.wire(), true).map(normal) {
        Ok(got) if got == want => {}
        Ok(got) if v.group == "set" && got == sets_as_lists(want.clone()) => {
            c.finding(
                "set-written-as-list",
                format!("{}: a declared set is written with the list wire type: {} written as {}", v.name, brief(m), hex(&b)),
            );
            return;
        }
        Ok(got) => c.fail(format!("{}: {} is written as {}, which a decoder reads as {}", v.name, brief(m), hex(&b), brief(&got))),
        Err(e) => c.fail(format!("{}: {} is written as {}, which is not well-formed: {e}", v.name, brief(m), hex(&b))),
    }
    // as a field of some struct
    for (last, id) in [(0i16, 1i16), (0, 16), (5, 3), (0, -1), (32767, -32768), (-32768, 32767), (7, 7)] {
        let mut o = vec![];
        // the struct so far, so that the decoder knows the previous id
        if last != 0 {
            let pre = W::Struct(vec![(last, W::Bool(true))]);
            o = wire::canon(&pre);
            o.pop();
        }
        let mut l = last;
        let r = v.write_field(m, id, &mut l, &mut o);
        o.push(0);
        c.compared(1);
        let got = wire::decode_all(&o, wire::STRUCT, true);
        let mut want = vec![];
        if last != 0 {
            want.push((last, W::Bool(true)));
        }
        want.push((id, to_w(&v.ty, m)));
        let want = W::Struct(want);
        let ok = r == Ok(()) && l == id && got.as_ref().map(|g| cmp_fields(g, &want)) == Ok(true);
        if !ok {
            c.fail(format!(
                "{}: {} written as field {id} after field {last} gives {} (result {r:?}, tracked id {l}), which a decoder reads as {}",
                v.name,
                brief(m),
                hex(&o),
                brief(&got)
            ));
        }
    }
    c.sample(|| format!("{} = {}", hex(&b), brief(m)));
    c.outcome("decoded to the declared fields");
}
/// Same fields in the same order, up to the order inside nested structs.
pub fn cmp_fields(a: &W, b: &W) -> bool {
    match (a, b) {
        (W::Struct(a), W::Struct(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && normal(x.1.clone()) == normal(y.1.clone())),
        _ => false,
    }
}


pub struct AnyForm<'c, 'a> {
    pub c: &'c mut Ctx<'a>,
}
impl Form for AnyForm<'_, '_> {
    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !rest.is_empty() {
            let i = self.c.dev(rest.len());
            out.push(rest.remove(i));
        }
        out
    }
    fn long_field(&mut self) -> bool {
        self.c.dev(2) == 1
    }
    fn long_list(&mut self) -> bool {
        self.c.dev(2) == 1
    }
    fn pad(&mut self, g: usize) -> usize {
        // up to ten groups in all
        let mut p = vec![0, 1, 2, 10 - g];
        p.retain(|x| g + x <= 10);
        p.dedup();
        let i = self.c.dev(p.len());
        p[i]
    }
    fn bool_tag(&mut self) -> u8 {
        2 - self.c.dev(2) as u8
    }
    fn false_byte(&mut self) -> u8 {
        [2, 0][self.c.dev(2)]
    }
}

pub fn both(v: &Vt, b: &[u8]) -> [(&'static str, Result<M, Er>, usize); 2] {
    let (r, n) = v.read(b);
    let (r2, n2) = v.read_stream_bytes(b);
    [("slice", r, n), ("stream", r2, n2)]
}

pub fn accepts(c: &mut Ctx, v: &Vt, m: &M, b: &[u8]) {
    c.state(b);
    for (src, r, n) in both(v, b) {
        c.compared(1);
        if r.as_ref() != Ok(m) || n != b.len() {
            c.fail(format!("{}: {} encodes {}, but reading it from a {src} gives {} and consumes {n} of {}", v.name, hex(b), brief(m), brief(&r), b.len()));
        }
    }
    c.outcome("valid encodings read");
}


#[derive(Clone, Copy, PartialEq)]
pub enum Side {
    MustAccept,
    MustReject,
    SameFromStream,
    NoCrash,
}

/// A stream whose bytes the explorer chooses when they are asked for.
pub struct Lazy<'c, 'a> {
    pub c: &'c mut Ctx<'a>,
    pub bytes: Vec<u8>,
    /// the first `full` bytes range over all 256 values
    pub full: usize,
    pub max: usize,
    pub alpha: &'static [u8],
    pub eof: bool,
    pub reads_after_eof: usize,
}
pub const ALPHA: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x15, 0x16, 0x18, 0x19, 0x1c, 0x11, 0x12, 0x25, 0x80, 0xff, 0x1b, 0x05];
pub const ALPHA_BIG: &[u8] = &[
    0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0f, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17,
    0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x21, 0x22, 0x25, 0x29, 0x2c, 0x31, 0x3b, 0x41, 0x7f, 0x80, 0x81, 0x9b, 0xb1, 0xc8, 0xf1, 0xf2, 0xf5, 0xfc, 0xff,
];
impl Read for Lazy<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.eof {
            self.reads_after_eof += 1;
            return Ok(0);
        }
        if self.bytes.len() >= self.max {
            self.eof = true;
            return Ok(0);
        }
        if buf.len() > 1 {
            // payloads: one of a few patterns at once
            let pats: [&[u8]; 4] = [b"a", &[0xC3, 0xA9], &[0x80], &[0x00, 0x15]];
            let i = self.c.choose(5);
            if i == 4 {
                self.eof = true;
                return Ok(0);
            }
            // as much as fits, so that long payloads run into the end
            let n = buf.len().min(300);
            for (k, x) in buf[..n].iter_mut().enumerate() {
                *x = pats[i][k % pats[i].len()];
                self.bytes.push(*x);
            }
            if n < buf.len() {
                self.eof = true;
            }
            return Ok(n);
        }
        let b = if self.bytes.len() < self.full {
            let i = self.c.choose(257);
            (i < 256).then_some(i as u8)
        } else {
            let i = self.c.choose(self.alpha.len() + 1);
            self.alpha.get(i).copied()
        };
        match b {
            None => {
                self.eof = true;
                Ok(0)
            }
            Some(x) => {
                buf[0] = x;
                self.bytes.push(x);
                Ok(1)
            }
        }
    }
}

pub fn show<T: std::fmt::Debug>(r: &Result<T, Er>, n: usize) -> String {
    format!("{} ({n} bytes consumed)", brief(r))
}

/// Judges one byte string. `stream` is what a stream reader made of it.
pub fn judge(c: &mut Ctx, v: &Vt, b: &[u8], stream: (Result<M, Er>, usize), side: Side) {
    c.state(b);
    let (r, n) = v.read(b);
    c.compared(2);
    match side {
        Side::NoCrash => {
            for (src, r) in [("slice", &r), ("stream", &stream.0)] {
                if let Err(Er::Panic(p)) = r {
                    c.fail(format!("{}: reading {} from a {src} panics: {p}", v.name, hex(b)));
                }
            }
            c.check(n <= b.len(), || format!("{}: reading {} consumed {n} bytes", v.name, hex(b)));
            c.outcome(if r.is_ok() { "a value" } else { "an error" });
        }
        Side::SameFromStream => {
            let same = match (&r, &stream.0) {
                (Ok(a), Ok(b)) => a == b && n == stream.1,
                (Err(a), Err(b)) => a == b,
                _ => false,
            };
            if !same {
                c.fail(format!("{}: {} read from a slice gives {}, from a stream {}", v.name, hex(b), show(&r, n), show(&stream.0, stream.1)));
            }
            c.outcome(if r.is_ok() { "both accept" } else { "both reject" });
        }
        Side::MustReject | Side::MustAccept => {
            let verdict = model_read(&v.ty, b);
            for (src, r, n) in [("slice", &r, n), ("stream", &stream.0, stream.1)] {
                match (&verdict, r) {
                    (Verdict::Open(_), _) => c.outcome("left open"),
                    (Verdict::Malformed(e), Ok(x)) if side == Side::MustReject => {
                        c.fail(format!("{}: {} is malformed ({e:?}) but read from a {src} as {}", v.name, hex(b), brief(x)))
                    }
                    (Verdict::Reject(e, _), Ok(x)) if side == Side::MustReject => {
                        c.fail(format!("{}: {} is no value of the type ({e:?}) but read from a {src} as {}", v.name, hex(b), brief(x)))
                    }
                    (Verdict::Accept { m, consumed, slack }, Ok(x)) => {
                        if *consumed != n || (!slack.wild && x != m) {
                            c.fail(format!(
                                "{}: {} denotes {} in {consumed} bytes, but reading it from a {src} gives {} and consumes {n}",
                                v.name,
                                hex(b),
                                brief(m),
                                brief(x)
                            ));
                        }
                        c.outcome("accepted as denoted");
                    }
                    (Verdict::Accept { m, slack, .. }, Err(e)) => {
                        if side == Side::MustAccept && !slack.either {
                            c.fail(format!("{}: {} encodes {}, but reading it from a {src} fails: {e:?}", v.name, hex(b), brief(m)));
                        }
                        c.outcome(if slack.either { "may be rejected" } else { "rejected though valid" });
                    }
                    _ => c.outcome("rejected"),
                }
            }
        }
    }
}

pub fn lazy_job(v: &'static Vt, name: String, full: usize, max: usize, alpha: &'static [u8], side: Side) -> Job<'static> {
    Job::new(name, 0, move |c| {
        let mut l = Lazy { c, bytes: vec![], full, max, alpha, eof: false, reads_after_eof: 0 };
        let r = v.read_stream(&mut l);
        let (bytes, extra) = (std::mem::take(&mut l.bytes), l.reads_after_eof);
        let n = bytes.len();
        if side == Side::NoCrash {
            c.check(extra <= 1, || format!("{}: {} end-of-stream answers were ignored while reading {}", v.name, extra, hex(&bytes)));
        }
        judge(c, v, &bytes, (r, n), side);
    })
}

/// Valid encodings with one byte replaced, removed, inserted or cut off.
pub fn mutated(c: &mut Ctx, b: &[u8], alpha: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    let i = c.choose(b.len() + 1);
    match c.choose(4) {
        0 if i < b.len() => b[i] = c.choose(256) as u8,
        1 if i < b.len() => {
            b.remove(i);
        }
        2 => {
            let x = alpha[c.choose(alpha.len())];
            b.insert(i, x);
        }
        _ => b.truncate(i),
    }
    b
}

/// Announces another length at one place, and with redundant groups if wanted.
struct Liar {
    at: usize,
    seen: usize,
    to: u64,
    pad: usize,
    padding: bool,
}
impl Form for Liar {
    fn len(&mut self, real: u64) -> u64 {
        self.seen += 1;
        if self.seen - 1 == self.at {
            self.padding = true;
            // the high bits of `to` are an amount to add, its lowest says that it is a length itself
            return if self.to & 1 << 63 == 0 { real.wrapping_add(self.to) } else { self.to & !(1 << 63) };
        }
        real
    }
    fn pad(&mut self, groups: usize) -> usize {
        if std::mem::take(&mut self.padding) {
            self.pad.min(10usize.saturating_sub(groups))
        } else {
            0
        }
    }
}
/// An encoding of the value in which one announced length is another one; none if there is no length.
pub fn lying(c: &mut Ctx, w: &W, th: bool) -> Option<Vec<u8>> {
    let mut count = Liar { at: usize::MAX, seen: 0, to: 0, pad: 0, padding: false };
    wire::encode(w, true, &mut count, &mut vec![]);
    if count.seen == 0 {
        return None;
    }
    let at = c.choose(count.seen);
    let mut to: Vec<u64> = vec![1, u64::MAX >> 1];
    to.extend((4..63).map(|k| 1u64 << k));
    for k in [31u32, 32, 33, 62] {
        to.extend([(1u64 << k) + 1, (1 << k) - 1]);
    }
    const ITSELF: u64 = 1 << 63;
    to.extend([0u64, 1, 2, 15, 16, 127, 128, 16384, 9_999_999, 10_000_000, 10_000_001, (1 << 24) - 1, 1 << 24, (1 << 24) + 1].map(|n| n | ITSELF));
    if !th {
        to.retain(|n| n & ITSELF != 0 || n.count_ones() != 1 || matches!(n.trailing_zeros(), 0 | 7 | 8 | 16 | 24 | 31..=33 | 40 | 62));
    }
    let to = *c.pick(&to);
    let pad = *c.pick(&[0usize, 1, 9]);
    let mut b = vec![];
    wire::encode(w, true, &mut Liar { at, seen: 0, to, pad, padding: false }, &mut b);
    Some(b)
}

/// Contents that a reader could be tempted to treat differently.
fn contents() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "", "\0", "x\0", "\0x", " ", " x ", "\r\n", "\n", "\t", "\u{7f}", "\u{80}", "\u{a0}", "\u{feff}", "\u{feff}\u{feff}x", "x\u{feff}", "e\u{301}", "\u{fffd}", "\u{fffe}",
        "\u{ffff}", "\u{10000}", "\u{10ffff}", "\u{e000}", "\u{d7ff}", "\"", "\\", "\\u0041", "%41", "&amp;", "NaN", "true", "1", "PAR1", "\u{1b}[0m", "\u{202e}x", "I\u{130}", "\u{df}",
    ]
    .map(|s| s.as_bytes().to_vec())
    .into();
    v.extend([&[0x80u8][..], &[0xFF, 0xFE], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xA0, 0xBD, 0xED, 0xB8, 0x80], &[0xE2, 0x82], &[0xF4, 0x90, 0x80, 0x80], &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xE9], &[b'x', 0xBF]].map(Vec::from));
    v.extend([14usize, 15, 16, 31, 32, 127, 128, 255, 256].map(text));
    v
}
fn leaves(w: &W, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(path.clone());
    let kids: Vec<&W> = match w {
        W::List(_, v) | W::Set(_, v) => v.iter().collect(),
        W::Struct(f) => f.iter().map(|f| &f.1).collect(),
        _ => vec![],
    };
    for (i, k) in kids.into_iter().enumerate() {
        path.push(i);
        leaves(k, path, out);
        path.pop();
    }
}
fn node<'a>(w: &'a mut W, path: &[usize]) -> &'a mut W {
    match path {
        [] => w,
        [i, rest @ ..] => match w {
            W::List(_, v) | W::Set(_, v) => node(&mut v[*i], rest),
            W::Struct(f) => node(&mut f[*i].1, rest),
            _ => unreachable!(),
        },
    }
}
/// The value with one number, text or list in it replaced by an unusual one.
pub fn unusual(c: &mut Ctx, w: &W, th: bool) -> W {
    let mut places = vec![];
    leaves(w, &mut vec![], &mut places);
    let mut w = w.clone();
    let i = c.choose(places.len());
    let n = node(&mut w, &places[i]);
    match n {
        W::Bool(b) => *b = !*b,
        W::Byte(b) => *b = *c.pick(&[0i8, 1, 2, -1, 127, -128, 64, -64]),
        W::I16(v) => *v = *c.pick(&i64_edges(16)),
        W::I32(v) => *v = *c.pick(&i64_edges(32)),
        W::I64(v) => *v = *c.pick(&i64_edges(64)),
        W::F64(v) => *v = *c.pick(&F64S),
        W::Bin(v) => *v = c.pick(&contents()).clone(),
        W::List(_, v) | W::Set(_, v) => {
            let first = v.first().cloned();
            let k = *c.pick(&[0usize, 1, 14, 15, 16, 127, 128, 300, 16384, 70_000]);
            if k < 16_000 || th || matches!(first, Some(W::Bool(_) | W::Byte(_) | W::I32(_))) {
                *v = first.into_iter().cycle().take(k).collect();
            }
        }
        W::Struct(f) => {
            if !f.is_empty() {
                let k = c.choose(f.len());
                f.remove(k);
            }
        }
        W::Map(..) => {}
    }
    w
}

/// A value of the type with one number, text or list replaced by an unusual one, if that is one of the type.
pub fn unusual_value(c: &mut Ctx, ty: &Ty, sparse: bool, th: bool) -> Option<M> {
    let m = if sparse { ty.default() } else { nth(ty, 0) };
    match mc::ty::model_read(ty, &wire::canon(&unusual(c, &to_w(ty, &m), th))) {
        mc::ty::Verdict::Accept { m, .. } => Some(m),
        _ => None,
    }
}

/// Values nested in each other as often as fit into n bytes: the kinds (a struct's field, a list's or set's element, a
/// map's key or value) repeat with a period of up to `period`. The type of the outermost, and the bytes.
pub fn nested(c: &mut Ctx, period: usize, n: usize) -> (u8, Vec<u8>) {
    const TYPES: [u8; 5] = [12, 9, 10, 11, 11];
    let p = 1 + c.choose(period);
    let kinds: Vec<usize> = (0..p).map(|_| c.choose(5)).collect();
    let mut unit = vec![];
    for i in 0..p {
        let child = TYPES[kinds[(i + 1) % p]];
        match kinds[i] {
            0..=2 => unit.push(0x10 | child),
            3 => unit.extend([1, child << 4 | 3]),
            _ => unit.extend([1, 0x30 | child, 0]),
        }
    }
    let k = n / unit.len();
    (TYPES[kinds[0]], unit.repeat(k))
}

/// Structs in a value: path to the wire struct, and the ids its definition declares.
pub fn structs(ty: &Ty, w: &W, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Arc<Def>)>) {
    match (ty, w) {
        (Ty::Struct(d), W::Struct(fs)) => {
            out.push((path.clone(), d.clone()));
            for (i, (id, x)) in fs.iter().enumerate() {
                if let Some(f) = d.fields.iter().find(|f| f.id == *id) {
                    path.push(i);
                    structs(&f.ty, x, path, out);
                    path.pop();
                }
            }
        }
        (Ty::Union(d), W::Struct(fs)) => {
            for (i, (id, x)) in fs.iter().enumerate() {
                if let Some(f) = d.fields.iter().find(|f| f.id == *id) {
                    path.push(i);
                    structs(&f.ty, x, path, out);
                    path.pop();
                }
            }
        }
        (Ty::List(t), W::List(_, v)) => {
            for (i, x) in v.iter().enumerate().take(2) {
                path.push(i);
                structs(t, x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}
pub fn at<'w>(w: &'w mut W, path: &[usize]) -> &'w mut W {
    let Some((i, rest)) = path.split_first() else { return w };
    match w {
        W::Struct(f) => at(&mut f[*i].1, rest),
        W::List(_, v) | W::Set(_, v) => at(&mut v[*i], rest),
        _ => panic!("path"),
    }
}
pub fn undeclared(d: &Def) -> Vec<i16> {
    let max = d.fields.iter().map(|f| f.id).max().unwrap_or(0);
    [2i16, max.saturating_add(1), max.saturating_add(16), max.saturating_add(300), 0, -1, 32767, -32768, 4]
        .into_iter()
        .filter(|i| d.fields.iter().all(|f| f.id != *i))
        .collect()
}

/// Reads a value with one or two unknown fields inserted anywhere.
pub fn with_unknown(c: &mut Ctx, v: &Vt, sparse: bool, cat: &[W], second: bool, all_ids: bool, th: bool) {
    let m = if sparse { v.ty.default() } else { nth(&v.ty, 0) };
    let mut w = to_w(&v.ty, &m);
    for round in 0..if second { 2 } else { 1 } {
        let mut ss = vec![];
        structs(&v.ty, &w, &mut vec![], &mut ss);
        if ss.is_empty() {
            return;
        }
        let (path, d) = ss[c.choose(ss.len())].clone();
        let ids = undeclared(&d);
        let id = ids[c.choose(if all_ids { ids.len() } else { ids.len().min(2) })];
        let W::Struct(fs) = at(&mut w, &path) else { panic!() };
        // any position (in large structs: the first and last few)
        let n = fs.len() + 1;
        let spots: Vec<usize> = if n <= 9 || th { (0..n).collect() } else { (0..3).chain(n - 3..n).collect() };
        let pos = spots[c.choose(spots.len())];
        let u = &cat[c.choose(cat.len())];
        fs.insert(pos, (id, u.clone()));
        if round == 0 && second && c.choose(2) == 0 {
            break;
        }
    }
    let b = wire::canon(&w);
    c.state(&b);
    c.sample(|| format!("{} = {}", hex(&b), brief(&m)));
    for (src, r, n) in both(v, &b) {
        c.compared(1);
        if r.as_ref() != Ok(&m) || n != b.len() {
            c.fail(format!(
                "{}: {} is {} plus unknown fields, but reading it from a {src} gives {} and consumes {n} of {}",
                v.name,
                hex(&b),
                brief(&m),
                brief(&r),
                b.len()
            ));
        }
    }
    c.outcome("unknown fields ignored");
}

/// Prints valid encodings of every type (harness/ub/src/corpus.rs).
#[allow(dead_code)]
pub fn corpus(name: &str, all: &[Vt]) {
    println!("pub const {name}: &[(&str, &[&[u8]])] = &[");
    for v in all {
        let mut bs: Vec<Vec<u8>> = vec![];
        for m in [nth(&v.ty, 0), nth(&v.ty, 1), v.ty.default()] {
            let b = wire::canon(&to_w(&v.ty, &m));
            if !bs.contains(&b) {
                bs.push(b);
            }
        }
        let bs: Vec<String> = bs.iter().map(|b| format!("&{b:?}")).collect();
        println!("    ({:?}, &[{}]),", v.name, bs.join(", "));
    }
    println!("];");
}

/// On a small stack, as a thread of an application may have.
pub fn on_small_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, f).expect("spawn").join().expect("join"))
}
