//! P03: the set of encodings.
use crate::subject::*;
use compact_thrift_parquet::format::Encoding;
use compact_thrift_parquet::EncodingSet;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol};
use mc::cli::Plan;
use mc::explore::{Ctx, Job};
use mc::hex;
use mc::ty::M;
use mc::wire::{self, W};
use std::collections::BTreeSet;

impl Subject for EncodingSet {
    fn from_m(m: &M) -> Self {
        let M::List(v) = m else { return cannot(m) };
        let b = wire::canon(&W::List(wire::I32, v.iter().map(|x| if let M::I32(x) = x { W::I32(*x as i64) } else { panic!("encoding {x:?}") }).collect()));
        EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)).unwrap_or_else(|_| cannot(m))
    }
    fn to_m(&self) -> M {
        M::List(self.iter().map(|e| M::I32(e.0)).collect())
    }
}

fn read(b: &[u8], stream: bool) -> (Result<EncodingSet, Er>, usize) {
    if stream {
        let mut r = b;
        let x = mc::explore::guard(|| EncodingSet::read_thrift(&mut r).map_err(Er::from));
        (x.unwrap_or_else(|p| Err(Er::Panic(p))), b.len() - r.len())
    } else {
        fenced(b, true, |b| {
            let x = mc::explore::guard(|| {
                let mut i = CompactThriftInputSlice::new(b);
                let r = EncodingSet::read_thrift(&mut i).map_err(Er::from);
                (r, b.len() - i.as_slice().len())
            });
            x.unwrap_or_else(|p| (Err(Er::Panic(p)), 0))
        })
    }
}

/// Everything observable about a set that should hold `want`.
fn is_the_set(c: &mut Ctx, s: &EncodingSet, want: &BTreeSet<i32>, how: &str) {
    let it: Vec<i32> = s.iter().map(|e| e.0).collect();
    let w: Vec<i32> = want.iter().copied().collect();
    let dbg = format!("{s:?}");
    let enc: Vec<Encoding> = w.iter().map(|x| Encoding(*x)).collect();
    let mut out = vec![];
    let wr = s.write_thrift(&mut out).map_err(Er::from);
    let back = read(&out, false);
    let ok = it == w
        && s.len() == w.len()
        && s.is_empty() == w.is_empty()
        && dbg == format!("{enc:?}")
        && wr == Ok(())
        && wire::decode_all(&out, wire::LIST, true).as_ref() == Ok(&W::List(wire::I32, w.iter().map(|x| W::I32(*x as i64)).collect()))
        && back.1 == out.len()
        && back.0.as_ref().ok() == Some(s);
    c.compared(1);
    c.check(ok, || {
        format!("{how} should be the set {w:?}; it iterates as {it:?}, has {} members, is_empty {}, prints as {dbg}, is written as {} ({wr:?}) and read back as {:?}", s.len(), s.is_empty(), hex(&out), back.0)
    });
}

fn sent(c: &mut Ctx, v: &[i64], long: bool) {
    let mut b = vec![];
    if long || v.len() > 14 {
        b.push(0xF0 | wire::I32);
        wire::varint(&mut b, v.len() as u64, 0);
    } else {
        b.push((v.len() as u8) << 4 | wire::I32);
    }
    for x in v {
        wire::varint(&mut b, wire::zigzag(*x), 0);
    }
    let n = b.len();
    c.state(&b);
    c.sample(|| format!("{v:?} as {}", hex(&b)));
    b.extend_from_slice(&[0x08, 0x15]);
    let good = v.iter().all(|x| (0..=30).contains(x));
    for stream in [false, true] {
        let (r, k) = read(&b, stream);
        c.compared(1);
        match r {
            Ok(s) if good => {
                c.check(k == n, || format!("reading {} consumes {k} of {n}", hex(&b)));
                is_the_set(c, &s, &v.iter().map(|x| *x as i32).collect(), &format!("the list {v:?}"));
                c.outcome("the set sent");
            }
            Ok(s) => c.fail(format!("the list {v:?} ({}) is read as {s:?}", hex(&b))),
            Err(e @ Er::Panic(_)) => c.fail(format!("reading the list {v:?} ({}): {e:?}", hex(&b))),
            Err(e) => {
                c.check(!good, || format!("the list {v:?} ({}) is rejected: {e:?}", hex(&b)));
                c.outcome("rejected");
            }
        }
    }
}

pub fn p03(th: bool) -> Plan<'static> {
    let alpha: &'static [i64] = &[
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 62, 63, 64, 127, 128, 256,
        1 << 20, i32::MAX as i64, -1, -2, -31, -32, -64, -65, i32::MIN as i64,
    ];
    let mut jobs = vec![];
    jobs.push(Job::new("lists", 0, move |c| {
        let n = c.choose(if th { 5 } else { 4 });
        let v: Vec<i64> = (0..n).map(|_| *c.pick(alpha)).collect();
        let long = c.choose(2) == 1;
        sent(c, &v, long);
    }));
    // any subset of the published encodings, twice over in reverse
    jobs.push(Job::new("subsets", 0, move |c| {
        let bits = if th { 16 } else { 12 };
        let v: Vec<i64> = (0..bits).filter(|_| c.choose(2) == 1).map(|x| x * 31 / bits).collect();
        let twice = c.choose(2) == 1;
        let mut w = v.clone();
        if twice {
            w.extend(v.iter().rev());
        }
        sent(c, &w, false);
    }));
    // contiguous runs of all lengths, with one more value anywhere
    jobs.push(Job::new("runs", 0, move |c| {
        let a = c.choose(31) as i64;
        let n = c.choose(32 - a as usize) as i64;
        let mut v: Vec<i64> = (a..a + n).collect();
        let k = c.choose(4);
        let x = *c.pick(alpha);
        match k {
            0 => {}
            1 => v.insert(0, x),
            2 => v.push(x),
            _ => v.insert(v.len() / 2, x),
        }
        sent(c, &v, false);
    }));
    jobs.push(Job::new("many", 0, move |c| {
        let n = *c.pick(&[32usize, 100, 127, 128, 10_000, 100_000]);
        let step = 1 + c.choose(30) as i64;
        let v: Vec<i64> = (0..n as i64).map(|i| i * step % 31).collect();
        sent(c, &v, false);
        // a bad value at the end
        let mut w = v;
        w.push(*c.pick(&[31i64, -1]));
        sent(c, &w, false);
    }));
    // equality is equality of the sets
    jobs.push(Job::new("equality", 0, move |c| {
        let m = if th { 3 } else { 2 };
        let mut sets = vec![];
        for _ in 0..2 {
            let n = c.choose(m + 1);
            let v: Vec<i32> = (0..n).map(|_| *c.pick(&[0, 1, 2, 3, 8, 9, 15, 16, 29, 30])).collect();
            sets.push(v);
        }
        let s: Vec<EncodingSet> = sets.iter().map(|v| conv(&M::List(v.iter().map(|x| M::I32(*x)).collect()))).collect();
        let w: Vec<BTreeSet<i32>> = sets.iter().map(|v| v.iter().copied().collect()).collect();
        c.state(format!("{sets:?}").as_bytes());
        c.compared(1);
        c.check((s[0] == s[1]) == (w[0] == w[1]), || format!("{:?} == {:?} gives {}", sets[0], sets[1], s[0] == s[1]));
        c.outcome(if w[0] == w[1] { "equal" } else { "different" });
    }));
    // elements of another type
    jobs.push(Job::new("elements", 0, move |c| {
        let t = 1 + c.choose(12) as u8;
        if t == wire::I32 {
            return;
        }
        let n = 1 + c.choose(16);
        let el = mc::gen::elems().into_iter().filter(|e| e.elem_type() == t || (t == 1 && e.elem_type() == 2)).collect::<Vec<_>>();
        if el.is_empty() {
            return;
        }
        let x = c.pick(&el).clone();
        let mut b = wire::canon(&W::List(t, vec![x; n]));
        c.state(&b);
        b.extend_from_slice(&[0; 40]);
        for stream in [false, true] {
            let (r, _) = read(&b, stream);
            c.compared(1);
            c.check(r == Err(Er::Type), || format!("a list of {n} elements of type {t} is read as {r:?}"));
        }
        c.outcome("rejected for its elements");
    }));
    // whatever bytes
    jobs.push(Job::new("replaced", 0, move |c| {
        let n = c.choose(4);
        let old: Vec<i32> = (0..n).map(|_| *c.pick(&[0, 3, 30])).collect();
        let new: Vec<i32> = (0..c.choose(3)).map(|_| *c.pick(&[1, 3, 29])).collect();
        let mut s: EncodingSet = conv(&M::List(old.iter().map(|x| M::I32(*x)).collect()));
        let b = wire::canon(&W::List(wire::I32, new.iter().map(|x| W::I32(*x as i64)).collect()));
        c.state(format!("{old:?}{new:?}").as_bytes());
        let r = s.fill_thrift(&mut CompactThriftInputSlice::new(&b)).map_err(Er::from);
        c.check(r == Ok(()), || format!("{r:?}"));
        is_the_set(c, &s, &new.iter().copied().collect(), &format!("filling {old:?} from the list {new:?}"));
        c.outcome("replaced");
    }));
    Plan::new(jobs, &[
        "all lists of up to 3 (thorough 4) values of 49 (0..=33, around powers of two, negative, extremes), short and long header; all subsets of 12 (16) members, also doubled and reversed; all runs a..b in 0..=30 with one of the 49 values inserted; lists of up to 100000",
        "all pairs of lists of up to 2 (3) members for equality; all other element types x 1..=16 elements; filling non-empty sets",
    ])
}
