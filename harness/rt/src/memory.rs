//! R25: everything obtained is released exactly once, and what a failed call leaves behind is a value.
use crate::env::*;
use crate::kit::*;
use crate::subject::*;
use mc::alloc;
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::*;
use mc::hex;
use mc::ty::{to_w, Ty, M};
use mc::wire::{self, W};
use std::io::{ErrorKind, Read, Write};

/// f must leave the heap as it found it. Something kept once (a cache, a lazily made table) is no leak: it must be
/// kept again by the same call.
fn balanced(c: &mut Ctx, what: impl Fn() -> String, f: impl Fn()) {
    let mut last = (0, 0, None);
    for _ in 0..3 {
        let now = alloc::balance(&f);
        if now == (0, 0, None) {
            c.compared(1);
            return;
        }
        last = now;
    }
    match last {
        (_, _, Some(fault)) => c.fail(format!("{}: memory is {fault}", what())),
        (n, bytes, None) => c.fail(format!("{}: {n} blocks of {bytes} bytes in all are never released", what())),
    }
}

/// Gives out the bytes, then fails.
struct Source<'b> {
    b: &'b [u8],
    at: usize,
    piece: usize,
    kind: Option<ErrorKind>,
}
impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.at).min(self.piece);
        if n == 0 && !buf.is_empty() {
            return match self.kind {
                None => Ok(0),
                Some(k) => Err(k.into()),
            };
        }
        buf[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        self.at -= n;
        Ok(n)
    }
}
struct Full(usize);
impl Write for Full {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = buf.len().min(self.0);
        self.0 -= n;
        if n == 0 && !buf.is_empty() {
            return Err(ErrorKind::StorageFull.into());
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const OLD: usize = 1;

/// Every way of handing the bytes to the type.
fn every_way(c: &mut Ctx, v: &'static Vt, b: &[u8], good: &[u8], fresh: &M) {
    let what = |how: &str| format!("{}: {how} {}", v.name, hex(b));
    balanced(c, || what("read from the slice"), || drop(v.read_slice_raw(b)));
    balanced(c, || what("read from a stream of"), || drop(v.read_stream_bytes(b)));
    let t = v.ty.wire();
    for old in [nth(&v.ty, OLD), v.ty.default(), M::None] {
        if old == M::None && !v.option {
            continue;
        }
        for field in [None, Some(t), Some(if t == wire::BIN { wire::LIST } else { wire::BIN })] {
            balanced(c, || what(&format!("{} filled (field {field:?}) from", brief(&old))), || drop(v.twice(&old, field, b, good)));
            let Ok(w) = v.twice(&old, field, b, good) else { continue };
            c.compared(1);
            left_behind(c, v, &old, field, b, &w, fresh);
        }
    }
}

/// What a call leaves behind is a value of the type.
fn left_behind(c: &mut Ctx, v: &Vt, old: &M, field: Option<u8>, b: &[u8], w: &Twice, fresh: &M) {
    let show = || format!("{}: {} filled (field {field:?}) from {} ({:?}) is now {}", v.name, brief(old), hex(b), w.first, brief(&w.left));
    c.check(text_is_text(&v.ty, &w.left), || format!("{}, which has text that is none", show()));
    match &w.written {
        Err(Er::NoValue) => {}
        Err(e) => c.fail(format!("{}, which cannot be written: {e:?}", show())),
        Ok(x) => {
            if !v.ty.has_set() {
                let got = wire::decode_all(x, v.ty.wire(), true).map(normal);
                let want = guard(|| normal(to_w(&v.ty, &w.left)));
                c.check(want.is_err() || got.as_ref().ok() == want.as_ref().ok(), || format!("{}, which is written as {} = {}", show(), hex(x), brief(&got)));
            }
        }
    }
    let refillable = !v.option && !has_optional(&v.ty) && !matches!(v.ty, Ty::Named(_))
        || !v.option && !matches!(v.ty, Ty::Struct(_) | Ty::Named(_));
    if refillable {
        c.check(w.second == Ok(()) && w.after == *fresh, || format!("{}; filled once more it becomes {} ({:?}) instead of {}", show(), brief(&w.after), w.second, brief(fresh)));
    }
    c.outcome(if w.first.is_ok() { "filled" } else { "failed, and left a value" });
}
fn text_is_text(ty: &Ty, m: &M) -> bool {
    match (ty, m) {
        (_, M::Str(b)) => std::str::from_utf8(b).is_ok(),
        (Ty::List(t) | Ty::Set(t), M::List(v)) => v.iter().all(|x| text_is_text(t, x)),
        (Ty::Struct(d), M::Struct(v)) => d.fields.iter().zip(v).all(|(f, x)| text_is_text(&f.ty, x)),
        (Ty::Union(d), M::Union(i, x)) => text_is_text(&d.fields[*i].ty, x),
        _ => true,
    }
}

pub fn r25(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    // what is made once per thread is made before
    let warm = |v: &'static Vt| {
        let _ = guard(|| v.read_slice_raw(&[]));
    };
    const FEW: [u8; 10] = [0x00, 0x01, 0x02, 0x0F, 0x15, 0x18, 0x1C, 0x80, 0xC3, 0xFF];
    for v in plain() {
        for &sparse in bases(&v.ty) {
            jobs.push(Job::new(format!("{}/mutated/{sparse}", v.name), 0, move |c| {
                warm(v);
                let m = if sparse { v.ty.default() } else { nth(&v.ty, c.choose(if th { 2 } else { 1 })) };
                let good = wire::canon(&to_w(&v.ty, &m));
                let b = if th {
                    mutated(c, &good, &FEW)
                } else {
                    let mut b = good.clone();
                    let i = c.choose(b.len() + 1);
                    match c.choose(3) {
                        0 if i < b.len() => b[i] = if b.len() > 60 { FEW[c.choose(FEW.len())] } else { ALPHA_BIG[c.choose(ALPHA_BIG.len())] },
                        1 => b.truncate(i),
                        _ => b.insert(i, FEW[c.choose(FEW.len())]),
                    }
                    b
                };
                c.state(&b);
                every_way(c, v, &b, &good, &m);
                c.sample(|| format!("{}: {} after {}", v.name, hex(&b), hex(&good)));
            }));
        }
        jobs.push(Job::new(format!("{}/bytes", v.name), 0, move |c| {
            warm(v);
            let n = c.choose(if th { 4 } else { 3 });
            let b: Vec<u8> = (0..n).map(|i| if i == 0 { c.choose(256) as u8 } else { FEW[c.choose(FEW.len())] }).collect();
            c.state(&b);
            let m = nth(&v.ty, 0);
            let good = wire::canon(&to_w(&v.ty, &m));
            every_way(c, v, &b, &good, &m);
        }));
        jobs.push(Job::new(format!("{}/broken-off", v.name), 0, move |c| {
            warm(v);
            let m = nth(&v.ty, c.choose(3));
            let b = wire::canon(&to_w(&v.ty, &m));
            let at = c.choose(b.len() + 1);
            let piece = [1, 3, usize::MAX][c.choose(3)];
            let kind = [None, Some(ErrorKind::ConnectionReset), Some(ErrorKind::WouldBlock)][c.choose(3)];
            c.state(format!("{} {at} {piece} {kind:?}", hex(&b)).as_bytes());
            balanced(c, || format!("{}: stream of {} in pieces of {piece} broken off after {at} bytes with {kind:?}", v.name, hex(&b)), || {
                drop(v.read_stream(&mut Source { b: &b, at, piece, kind }))
            });
            balanced(c, || format!("{}: {} written to a sink with room for {at} bytes", v.name, brief(&m)), || drop(v.write_to(&m, &mut Full(at))));
            c.outcome("broken off");
        }));
    }
    let cat: &'static [W] = Box::leak(elems().into_boxed_slice());
    jobs.push(Job::new("skip", 0, move |c| {
        let w = &cat[c.choose(cat.len())];
        let mut b = vec![];
        wire::encode(w, false, &mut wire::Canon, &mut b);
        b.truncate(c.choose(b.len() + 1));
        c.state(&b);
        balanced(c, || format!("skipping type {} in the stream {}", w.field_type(), hex(&b)), || drop(skip_stream(w.field_type(), &b)));
        c.outcome("skipped");
    }));
    // lists of many elements with the failure in any place
    for v in plain().filter(|v| matches!(v.ty, Ty::List(_))) {
        jobs.push(Job::new(format!("{}/long", v.name), 0, move |c| {
            warm(v);
            let Ty::List(t) = &v.ty else { unreachable!() };
            let n = [16, 100, 1000][c.choose(if th { 3 } else { 2 })];
            let one = nth(t, 0);
            let m = M::List(vec![one; n]);
            let good = wire::canon(&to_w(&v.ty, &m));
            let at = c.choose(n) * (good.len() - 1) / n;
            let mut b = good.clone();
            match c.choose(2) {
                0 => b.truncate(at),
                _ => b[at] = 0xFF,
            }
            c.state(&b);
            every_way(c, v, &b, &good, &m);
        }));
    }
    Plan::new(jobs, &[
        "every subject type: valid encodings of the two base values with any one byte replaced by 47 values (10 above 60 bytes; thorough: any), inserted or the rest cut; all strings of 2 (3) bytes, the first any byte, the others of 10; lists of 16, 100 (1000) elements broken in any place; each read from slice and stream and filled into three old values as a value, as a field and as a field of another type",
        "streams broken off after any number of bytes with three outcomes and in pieces of three sizes; sinks with room for any number of bytes; the skipping of every catalogue value cut anywhere",
        "a ledger of all blocks obtained and released, with size and alignment; what is kept must be kept again when the same call is repeated",
        "the value left behind: its text is text, it is written as what it is, and it can be filled again like any other (types without optional fields)",
    ])
}
