//! R17 (numbers) and R18 (field headers): the bulk enumerations call the code under test directly.
use crate::kit::brief;
use crate::env::named;
use crate::subject::*;
use compact_thrift_runtime::{CompactThriftInput, CompactThriftInputSlice, CompactThriftOutput, CompactThriftProtocol};
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::{i64_edges, F64S};
use mc::hex;
use mc::ty::M;
use mc::wire;
use std::io::Read;

/// The bytes the protocol prescribes, without allocating.
fn expect(u: u64, out: &mut [u8; 16]) -> usize {
    let (mut u, mut n) = (u, 0);
    while u >= 128 {
        out[n] = (u % 128) as u8 + 128;
        u /= 128;
        n += 1;
    }
    out[n] = u as u8;
    n + 1
}

fn one<T>(c: &mut Ctx, v: T, bits: i64, enc: u64)
where
    T: for<'i> CompactThriftProtocol<'i> + Default + PartialEq + std::fmt::Debug + Copy,
{
    let mut want = [0u8; 16];
    let n = expect(enc, &mut want);
    let mut buf = [0xEEu8; 24];
    let r = guard(|| {
        let mut w: &mut [u8] = &mut buf;
        let r = v.write_thrift(&mut w).is_ok();
        (r, w.len())
    });
    let ok = r == Ok((true, 24 - n)) && buf[..n] == want[..n];
    if !ok {
        c.fail(format!("{v:?} ({bits}) is written as {} ({r:?}), expected {}", hex(&buf[..12]), hex(&want[..n])));
    }
    let r = guard(|| {
        let mut i = CompactThriftInputSlice::new(&want[..n]);
        let a = T::read_thrift(&mut i).map_err(Er::from);
        let left = i.as_slice().len();
        let mut s: &[u8] = &want;
        let b = T::read_thrift(&mut s).map_err(Er::from);
        (a, left, b, s.len())
    });
    match r {
        Ok((Ok(a), 0, Ok(b), l)) if a == v && b == v && l == 16 - n => {}
        r => c.fail(format!("{}, the encoding of {v:?}, is read as {}", hex(&want[..n]), brief(&r))),
    }
}

fn read_as(c: &mut Ctx, bits: u32, b: &[u8], v: i64) {
    let (name, m) = match bits {
        16 => ("i16", M::I16(v as i16)),
        32 => ("i32", M::I32(v as i32)),
        _ => ("i64", M::I64(v)),
    };
    let vt = named(&[name])[0];
    let (r, n) = vt.read(b);
    let (r2, n2) = vt.read_stream_bytes(b);
    c.compared(2);
    let ok = r.as_ref() == Ok(&m) && n == b.len() && r2.as_ref() == Ok(&m) && n2 == b.len();
    c.check(ok, || format!("{} encodes {v} with redundant groups; read as {name}: slice {} ({n}), stream {} ({n2})", hex(b), brief(&r), brief(&r2)));
}

pub fn r17(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    jobs.push(Job::new("i8", 0, |c| {
        for x in i8::MIN..=i8::MAX {
            let b = [x as u8];
            let v = named(&["i8"])[0];
            let w = v.write(&M::I8(x));
            c.check(w.as_deref() == Ok(&b[..]), || format!("i8 {x} is written as {w:?}"));
            for r in [v.read(&b), v.read_stream_bytes(&b)] {
                c.check(r == (Ok(M::I8(x)), 1), || format!("i8 {x} is read as {r:?}"));
            }
        }
        c.states_n(256);
        c.compared(768);
        c.outcome_n("numbers", 256);
    }));
    jobs.push(Job::new("i16", 0, |c| {
        let hi = c.choose(256) as i64;
        for lo in 0..256i64 {
            let x = (hi * 256 + lo - 32768) as i16;
            one(c, x, x as i64, wire::zigzag(x as i64));
        }
        c.states_n(256);
        c.compared(512);
        c.outcome_n("numbers", 256);
    }));
    // i32: thorough all, quick all numbers within 2048 of every number with at most two bits
    jobs.push(Job::new("i32", 0, move |c| {
        let mut n = 0u64;
        if th {
            let hi = c.choose(1 << 12) as u32;
            for lo in 0..1u32 << 20 {
                let x = (hi << 20 | lo) as i32;
                one(c, x, x as i64, wire::zigzag(x as i64));
                n += 1;
            }
        } else {
            let (a, b) = (c.choose(32), c.choose(32));
            let base = (1u32 << a) ^ (1u32 << b);
            for d in 0..4096u32 {
                for base in [base, !base] {
                    let x = base.wrapping_add(d).wrapping_sub(2048) as i32;
                    one(c, x, x as i64, wire::zigzag(x as i64));
                    n += 1;
                }
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("numbers", n);
    }));
    // i64: all numbers whose bits change value at most 4 (thorough 5) times
    jobs.push(Job::new("i64", 0, move |c| {
        let a = c.choose(65) as u32;
        let b = c.choose(65) as u32;
        if b < a {
            return;
        }
        let run = |x: u32| if x >= 64 { 0 } else { u64::MAX << x };
        let mut n = 0;
        for p in b..=64 {
            for q in p..=64 {
                let top = if th { 64 } else { q };
                for z in q..=top {
                    let x = (run(a) ^ run(b) ^ run(p) ^ run(q) ^ if th { run(z) } else { 0 }) as i64;
                    for x in [x, !x] {
                        one(c, x, x, wire::zigzag(x));
                        n += 1;
                    }
                }
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("numbers", n);
    }));
    jobs.push(Job::new("f64", 0, |c| {
        let sign = c.choose(2) as u64;
        let exp = c.choose(2048) as u64;
        let mut mant: Vec<u64> = vec![0, (1 << 52) - 1, 0x0_1234_5678_9abc, 0x8_0000_0000_0001];
        mant.extend((0..52).map(|i| 1u64 << i));
        mant.extend(F64S.iter().map(|x| x & ((1 << 52) - 1)));
        let mut n = 0;
        for m in mant {
            let bits = sign << 63 | exp << 52 | m;
            let want = [
                bits as u8, (bits >> 8) as u8, (bits >> 16) as u8, (bits >> 24) as u8, (bits >> 32) as u8, (bits >> 40) as u8, (bits >> 48) as u8,
                (bits >> 56) as u8,
            ];
            let r = guard(|| {
                let mut w = Vec::with_capacity(8);
                let x = f64::from_bits(bits).write_thrift(&mut w).is_ok();
                let mut i = CompactThriftInputSlice::new(&want);
                let a = f64::read_thrift(&mut i).map_err(Er::from).map(f64::to_bits);
                let mut s: &[u8] = &want;
                let b = f64::read_thrift(&mut s).map_err(Er::from).map(f64::to_bits);
                (x, w, a, b, i.as_slice().len(), s.len())
            });
            let ok = matches!(&r, Ok((true, w, Ok(a), Ok(b), 0, 0)) if w[..] == want && *a == bits && *b == bits);
            c.check(ok, || format!("f64 {bits:#018x}: expected {}, got {}", hex(&want), brief(&r)));
            n += 1;
        }
        c.states_n(n);
        c.compared(3 * n);
        c.outcome_n("numbers", n);
    }));
    jobs.push(Job::new("lengths", 0, move |c| {
        // read_len and write_len through the traits
        let hi = c.choose(if th { 1 << 13 } else { 1 << 9 }) as u64;
        let mut n = 0;
        for lo in 0..4096u64 {
            let x = hi * 4096 + lo;
            length(c, x);
            n += 1;
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("numbers", n);
    }));
    jobs.push(Job::new("large-lengths", 0, |c| {
        let e = c.choose(64);
        let mut n = 0;
        for f in 0..=e {
            for d in 0..64u64 {
                length(c, ((1u64 << e) | (1u64 << f)).wrapping_add(d).wrapping_sub(32));
                n += 1;
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("numbers", n);
    }));
    jobs.push(Job::new("redundant-groups", 0, |c| {
        let bits = *c.pick(&[16u32, 32, 64]);
        let e = i64_edges(bits);
        let x = e[c.choose(e.len())];
        let u = wire::zigzag(x);
        let g = wire::groups(u);
        let pad = c.choose(11 - g);
        let mut b = vec![];
        wire::varint(&mut b, u, pad);
        c.state(&[b.as_slice(), &[bits as u8]].concat());
        read_as(c, bits, &b, x);
        c.outcome("numbers");
    }));
    Plan::new(jobs, &[
        "all 8-bit and 16-bit integers; 32-bit: all 4194304 numbers within 2048 of those with at most two (or all but two) bits set, thorough all 4294967296; 64-bit: all numbers whose binary digits change at most 4 (thorough 5) times",
        "doubles: all signs and exponents with 66 mantissas; lengths: all below 2097152 (thorough 33554432), and 64 around every number with at most two bits",
        "integers at every group boundary with every number of redundant groups up to ten in all",
        "each written, compared with the prescribed bytes, and read back from slice and stream",
    ])
}
fn length(c: &mut Ctx, x: u64) {
    let mut want = [0u8; 16];
    let n = expect(x, &mut want);
    let r = guard(|| {
        let mut w = Vec::with_capacity(16);
        let ok = w.write_len(x as usize).is_ok();
        let mut i = CompactThriftInputSlice::new(&want[..n]);
        let a = i.read_len().map_err(Er::from);
        let mut s: &[u8] = &want[..n];
        let d: &mut dyn Read = &mut s;
        let b = d.read_len().map_err(Er::from);
        (ok, w, a, b, i.as_slice().len())
    });
    let ok = matches!(&r, Ok((true, w, Ok(a), Ok(b), 0)) if w[..] == want[..n] && *a as u64 == x && *b as u64 == x);
    c.check(ok, || format!("length {x}: expected {}, got {}", hex(&want[..n]), brief(&r)));
}

// ---- R18 ------------------------------------------------------------------------------------------------------

fn header(last: i16, id: i16, t: u8, out: &mut Vec<u8>) {
    let d = id as i32 - last as i32;
    if (1..=15).contains(&d) {
        out.push(d as u8 * 16 + t);
    } else {
        out.push(t);
        wire::varint(out, wire::zigzag(id as i64), 0);
    }
}
/// Independent reading of one header: id, type, bytes used.
fn parse(last: i16, b: &[u8]) -> Option<(i32, u8, usize)> {
    let h = *b.first()?;
    let t = h % 16;
    if h / 16 != 0 {
        return Some((last as i32 + (h / 16) as i32, t, 1));
    }
    let (mut u, mut n) = (0u64, 1);
    loop {
        let x = *b.get(n)?;
        u += ((x % 128) as u64) << (7 * (n - 1));
        n += 1;
        if x < 128 {
            break;
        }
        if n > 10 {
            return None;
        }
    }
    Some((wire::unzigzag(u) as i32, t, n))
}

fn write_one(c: &mut Ctx, last: i16, id: i16) {
    let mut buf = [0xEEu8; 16];
    let r = guard(|| {
        let mut w: &mut [u8] = &mut buf;
        let mut l = last;
        let ok = true.write_thrift_field(&mut w, id, &mut l).is_ok();
        (ok, l, w.len())
    });
    let Ok((true, l, left)) = r else { c.fail(format!("writing field {id} after {last}: {r:?}")) };
    let b = &buf[..16 - left];
    if l != id || parse(last, b) != Some((id as i32, 1, b.len())) {
        c.fail(format!("field {id} after field {last} is written as {}, which means id {:?}; the tracked id is {l}", hex(b), parse(last, b)));
    }
    read_one(c, last, id, 1, b);
}
fn read_one(c: &mut Ctx, last: i16, id: i16, t: u8, b: &[u8]) {
    let r = guard(|| {
        let mut l = last;
        let mut i = CompactThriftInputSlice::new(b);
        let a = i.read_field_header(&mut l).map_err(Er::from);
        let left = i.as_slice().len();
        let mut l2 = last;
        let mut s: &[u8] = b;
        let x = s.read_field_header(&mut l2).map_err(Er::from);
        (a, l, left, x, l2, s.len())
    });
    match &r {
        Ok((Ok(a), l, 0, Ok(x), l2, 0)) if *a == t && *x == t && *l == id && *l2 == id => {}
        _ => c.fail(format!("header {} after field {last} means field {id} of type {t}; read as {}", hex(b), brief(&r))),
    }
}

pub fn r18(th: bool) -> Plan<'static> {
    let mut lasts: Vec<i16> = vec![];
    if !th {
        for p in [0i32, 1, -1, 15, 16, 63, 64, 127, 128, 8191, 8192, -64, -65, -8192, -8193, 16383, 16384, -16384, 32752, 32767, -32768, -32753] {
            for d in -2..=2 {
                lasts.push((p + d).clamp(-32768, 32767) as i16);
            }
        }
        lasts.sort();
        lasts.dedup();
    }
    let nl = lasts.len();
    let mut jobs = vec![];
    jobs.push(Job::new("pairs", 0, move |c| {
        let mut n = 0u64;
        if th {
            let last = (c.choose(65536) as i32 - 32768) as i16;
            for id in i16::MIN..=i16::MAX {
                write_one(c, last, id);
                n += 1;
            }
        } else {
            let last = lasts[c.choose(nl)];
            for id in i16::MIN..=i16::MAX {
                write_one(c, last, id);
                n += 1;
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("headers", n);
    }));
    // every previous id with the ids near it and at the ends
    jobs.push(Job::new("near", 0, |c| {
        let hi = c.choose(256) as i32;
        let mut n = 0;
        for lo in 0..256 {
            let last = (hi * 256 + lo - 32768) as i16;
            for d in -20..=20 {
                let id = last as i32 + d;
                if (-32768..=32767).contains(&id) {
                    write_one(c, last, id as i16);
                    n += 1;
                }
            }
            for id in [0i16, 1, -1, 32767, -32768] {
                write_one(c, last, id);
                n += 1;
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("headers", n);
    }));
    // every one-byte header after every id, and what must be refused
    jobs.push(Job::new("short-headers", 0, |c| {
        let hi = c.choose(256) as i32;
        let mut n = 0;
        for lo in 0..256 {
            let last = (hi * 256 + lo - 32768) as i16;
            for h in 0..=255u8 {
                let (d, t) = ((h / 16) as i32, h % 16);
                if d == 0 || t == 0 {
                    continue;
                }
                let id = last as i32 + d;
                if id <= 32767 {
                    // ids around the ends in full, one type elsewhere
                    if t == 1 || last > 32700 || last < -32700 {
                        read_one(c, last, id as i16, t, &[h]);
                        n += 1;
                    }
                } else {
                    for stream in [false, true] {
                        let r = guard(|| {
                            let mut l = last;
                            let r = if stream {
                                let mut s: &[u8] = &[h];
                                s.read_field_header(&mut l)
                            } else {
                                CompactThriftInputSlice::new(&[h]).read_field_header(&mut l)
                            };
                            r.map_err(Er::from).map(|t| (t, l))
                        });
                        c.check(matches!(r, Ok(Err(_))), || format!("header {h:02x} after field {last} leads beyond the 16-bit range; read as {r:?}"));
                        n += 1;
                    }
                }
            }
        }
        c.states_n(n);
        c.compared(n);
        c.outcome_n("headers", n);
    }));
    // every long header
    jobs.push(Job::new("long-headers", 0, |c| {
        let hi = c.choose(256) as i32;
        let last = *c.pick(&[0i16, 5, -1, 32767, -32768]);
        let mut n = 0;
        for lo in 0..256 {
            let id = (hi * 256 + lo - 32768) as i16;
            for t in [1u8, 2, 5, 12, 15] {
                let mut b = vec![t];
                wire::varint(&mut b, wire::zigzag(id as i64), (lo as usize + t as usize) % 4);
                read_one(c, last, id, t, &b);
                n += 1;
            }
        }
        c.states_n(n);
        c.compared(2 * n);
        c.outcome_n("headers", n);
    }));
    // sequences
    jobs.push(Job::new("sequences", 0, move |c| {
        const IDS: [i16; 14] = [0, 1, 2, 15, 16, 17, 32, -1, -16, 200, 8192, 32752, 32767, -32768];
        let len = 1 + c.choose(if th { 5 } else { 4 });
        let ids: Vec<i16> = (0..len).map(|_| *c.pick(&IDS)).collect();
        let mut want = vec![];
        let mut last = 0;
        for &i in &ids {
            header(last, i, 1 + (i & 1) as u8, &mut want);
            last = i;
        }
        let r = guard(|| {
            let mut w = vec![];
            let mut l = 0i16;
            let mut ok = true;
            for &i in &ids {
                let x = i & 1 == 0;
                ok &= x.write_thrift_field(&mut w, i, &mut l).is_ok() && l == i;
            }
            ok.then_some(w)
        });
        c.state(&want);
        c.compared(3);
        c.sample(|| format!("{ids:?} = {}", hex(&want)));
        let Ok(Some(w)) = &r else { c.fail(format!("fields {ids:?}: {}", brief(&r))) };
        // any header form is fine as long as it means the same
        let (mut l, mut p) = (0i16, 0usize);
        for &i in &ids {
            match parse(l, &w[p.min(w.len())..]) {
                Some((id, t, n)) if id == i as i32 && t == 1 + (i & 1) as u8 => {
                    p += n;
                    l = i;
                }
                x => c.fail(format!("fields {ids:?} are written as {}; at byte {p} this means {x:?}", hex(w))),
            }
        }
        c.check(p == w.len(), || format!("fields {ids:?} are written as {}", hex(w)));
        for (src, stream) in [("slice", false), ("stream", true)] {
            let r = guard(|| {
                let mut out = vec![];
                let mut l = 0i16;
                let mut i = CompactThriftInputSlice::new(&want);
                let mut s: &[u8] = &want;
                for _ in &ids {
                    let t = if stream { s.read_field_header(&mut l) } else { i.read_field_header(&mut l) };
                    out.push((t.map_err(Er::from), l));
                }
                out
            });
            let exp: Vec<(Result<u8, Er>, i16)> = ids.iter().map(|i| (Ok(1 + (i & 1) as u8), *i)).collect();
            c.check(r.as_ref() == Ok(&exp), || format!("headers {} of fields {ids:?} read from a {src} as {}", hex(&want), brief(&r)));
        }
        c.outcome("sequences");
    }));
    Plan::new(jobs, &[
        if th { "all 4294967296 pairs of previous and new field id" } else { "all 65536 new ids after each of about 100 previous ids; all previous ids with the ids within 20 and the extremes" },
        "every one-byte header after every previous id (those beyond 32767 must be refused); every long header with 0 to 3 redundant groups after 5 previous ids; the stop byte's upper half is left open",
        "all sequences of up to 4 (thorough 5) fields over 14 ids",
    ])
}
