//! P12: from a file to its metadata and page indexes, with all helpers together.
use crate::files::Disk;
use crate::meta::idl;
use crate::subject::*;
use compact_thrift_parquet::format::FileMetaData;
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_chunk, get_page_index_range, read_page_index};
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol, ThriftError};
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::nth;
use mc::hex;
use mc::ty::{encode, to_w, Ty, M};
use mc::wire::{canon, W};
use std::ops::Range;

fn field<'m>(ty: &Ty, m: &'m mut M, name: &str) -> &'m mut M {
    let (Ty::Struct(d), M::Struct(f)) = (ty, m) else { panic!("no struct") };
    let k = d.fields.iter().position(|x| x.name == name).unwrap_or_else(|| panic!("no field {name}"));
    &mut f[k]
}
/// The k-th order of n things.
fn order(n: usize, mut k: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() {
        let f: usize = (1..i).product();
        out.push(left.remove(k / f % i));
        k %= f;
    }
    out
}
struct File {
    bytes: Vec<u8>,
    /// where the metadata is
    footer: Range<usize>,
    metadata: M,
    /// what reading the page indexes should give
    indexes: Vec<Vec<Option<(M, M)>>>,
    range: Option<Range<usize>>,
    what: String,
}

/// Chooses a file: its row groups and columns, which of them have indexes, where these are, and the rest of the metadata.
fn file(c: &mut Ctx, shapes: &[&[usize]], all_orders: usize) -> File {
    let (ty, gty, cty) = (idl().def("FileMetaData"), idl().def("RowGroup"), idl().def("ColumnChunk"));
    let (oty, kty) = (idl().def("OffsetIndex"), idl().def("ColumnIndex"));
    let shape = *c.pick(shapes);
    let columns: usize = shape.iter().sum();
    // 0: both indexes; 1: none; 2, 3: one of them; 4: one without a length; 5: those of the column before
    let kinds: Vec<usize> = (0..columns).map(|i| c.dev(if i > 0 { 6 } else { 5 })).collect();
    let offset = |i: usize| nth(&oty, i);
    let column = |i: usize| nth(&kty, i);
    let blobs: Vec<Vec<u8>> = (0..columns).flat_map(|i| [encode(&oty, &offset(i)), encode(&kty, &column(i))]).collect();
    let n = blobs.len();
    let orders: usize = if n <= all_orders { (1..=n).product() } else { 2 * n };
    let k = c.choose(orders.max(1));
    let at = if n <= all_orders {
        order(n, k)
    } else {
        // rotations, forwards and backwards
        (0..n).map(|i| if k < n { (i + k) % n } else { (2 * n - 1 - i + k) % n }).collect()
    };
    let mut b = b"PAR1".to_vec();
    let gap = |c: &mut Ctx, b: &mut Vec<u8>, gaps: &[usize]| {
        let n = *c.pick_dev(gaps);
        b.extend((0..n).map(|i| (i * 31) as u8 ^ 0x19));
    };
    gap(c, &mut b, &[20, 0, 130]);
    let mut place = vec![0..0; n];
    for i in at.iter().copied() {
        place[i] = b.len()..b.len() + blobs[i].len();
        b.extend(&blobs[i]);
        gap(c, &mut b, &[0, 1, 40]);
    }
    // the metadata
    // (nth values are different in each; in one of these variants they fall instead of rising)
    let variant = c.dev(3);
    let base = |ty: &Ty, k: usize| match variant {
        0 => nth(ty, k),
        1 => ty.default(),
        _ => nth(ty, 9 - k),
    };
    // lengths that go on over the bytes after the index
    let slack: Vec<usize> = (0..n).map(|_| *c.pick_dev(&[0, 40])).collect();
    for (p, s) in place.iter_mut().zip(slack) {
        p.end = (p.end + s).min(b.len());
    }
    let mut m = base(&ty, 0);
    let (mut i, mut groups, mut indexes, mut range) = (0, vec![], vec![], None::<Range<usize>>);
    for n in shape {
        let mut g = base(&gty, groups.len());
        let (mut cs, mut xs) = (vec![], vec![]);
        for _ in 0..*n {
            let mut x = base(&cty, i);
            let of = if kinds[i] == 5 { i - 1 } else { i };
            let (o, k) = (&place[2 * of], &place[2 * of + 1]);
            let some = |yes: bool, m: M| if yes { m } else { M::None };
            let kind = kinds[i];
            *field(&cty, &mut x, "offset_index_offset") = some(kind != 1 && kind != 3, M::I64(o.start as i64));
            *field(&cty, &mut x, "offset_index_length") = some(kind != 1 && kind != 3 && kind != 4, M::I32(o.len() as i32));
            *field(&cty, &mut x, "column_index_offset") = some(kind != 1 && kind != 2, M::I64(k.start as i64));
            *field(&cty, &mut x, "column_index_length") = some(kind != 1 && kind != 2, M::I32(k.len() as i32));
            cs.push(x);
            let has = kind == 0 || kind == 5;
            xs.push(has.then(|| (offset(of), column(of))));
            if has {
                for p in [o, k] {
                    let r = range.get_or_insert(p.clone());
                    *r = r.start.min(p.start)..r.end.max(p.end);
                }
            }
            i += 1;
        }
        *field(&gty, &mut g, "columns") = M::List(cs);
        groups.push(g);
        indexes.push(xs);
    }
    *field(&ty, &mut m, "row_groups") = M::List(groups);
    // written by others, by others with unknown fields, by this library
    let by = c.dev(3);
    let mb = match by {
        0 => encode(&ty, &m),
        1 => {
            let W::Struct(mut f) = to_w(&ty, &m) else { unreachable!() };
            f.push((20, W::Struct(vec![(1, W::Bin(b"new".to_vec())), (2, W::List(5, vec![W::I32(1); 20]))])));
            f.push((300, W::I64(-1)));
            canon(&W::Struct(f))
        }
        _ => {
            let mut o = vec![];
            match guard(|| FileMetaData::from_m(&m).write_thrift(&mut o)) {
                Ok(Ok(())) => o,
                e => c.fail(format!("writing the metadata {m:?} gives {e:?}")),
            }
        }
    };
    gap(c, &mut b, &[0, 3]);
    let footer = b.len()..b.len() + mb.len();
    b.extend(&mb);
    b.extend((mb.len() as u32).to_le_bytes());
    b.extend(b"PAR1");
    let what = format!("a file of {} bytes, row groups of {shape:?} columns (kinds {kinds:?}) with indexes at {place:?}, metadata at {footer:?} written by {}", b.len(), ["others", "later versions", "this library"][by]);
    File { bytes: b, footer, metadata: m, indexes, range, what }
}

fn whole(c: &mut Ctx, f: File, start: u64, faults: bool) {
    c.state(&f.bytes);
    c.sample(|| f.what.clone());
    c.compared(1);
    let size = f.bytes.len() as u64;
    let what = f.what.clone();
    let mut d = Disk::new(c, size, f.bytes.clone(), start, faults);
    let r = guard(|| get_metadata_chunk(&mut d));
    let (failed, calls) = (d.failed, d.calls);
    c.transitions_n(calls as u64);
    let chunk = match r {
        Ok(Ok(b)) if !failed => b,
        Ok(Err(_)) if failed => return c.outcome("failures reported"),
        r => c.fail(format!("{what}: looking up the metadata (reading failed: {failed}) gives {}", short(&r))),
    };
    c.check(chunk == f.bytes[f.footer.clone()], || format!("{what}: the metadata is {}", hex(&chunk)));
    let r = guard(|| {
        let mut i = CompactThriftInputSlice::new(&chunk);
        let m = FileMetaData::read_thrift(&mut i)?;
        let s = FileMetaData::read_thrift(&mut chunk.as_slice())?;
        Ok::<_, ThriftError>((m, s, i.as_slice().len()))
    });
    let (m, streamed, left) = match r {
        Ok(Ok(r)) => r,
        r => c.fail(format!("{what}: decoding the metadata gives {}", short(&r))),
    };
    c.check(left == 0, || format!("{what}: {left} bytes of the metadata are left over"));
    c.check(m.to_m() == f.metadata && streamed.to_m() == f.metadata, || format!("{what}: the metadata is {:?} instead of {:?}", m.to_m(), f.metadata));
    let r = guard(|| get_page_index_range(&m));
    match r {
        Ok(Ok(r)) if r == f.range => {}
        r => c.fail(format!("{what}: the range of the page indexes is {} instead of {:?}", short(&r), f.range)),
    }
    let mut d = Disk::new(c, size, f.bytes.clone(), start, faults);
    let r = guard(|| get_page_index_chunk(&mut d, &m));
    let (failed, calls) = (d.failed, d.calls);
    c.transitions_n(calls as u64);
    let got = match r {
        Ok(Ok(x)) if !failed || x.is_none() => x,
        Ok(Err(_)) if failed => return c.outcome("failures reported"),
        r => c.fail(format!("{what}: fetching the page indexes (reading failed: {failed}) gives {}", short(&r))),
    };
    let (b, base) = match (got, &f.range) {
        (Some((b, r)), Some(want)) if r == *want && b == f.bytes[want.clone()] => (b, r.start),
        (None, None) => (vec![], 0),
        (x, want) => c.fail(format!("{what}: fetching the page indexes gives {x:?}, expected the bytes at {want:?}")),
    };
    let r = fenced(&b, true, |b| guard(|| read_page_index(b, base, &m)));
    let x = match r {
        Ok(Ok(x)) => x,
        r => c.fail(format!("{what}: reading the page indexes gives {}", short(&r))),
    };
    let x: Vec<Vec<Option<(M, M)>>> = x.into_iter().map(|g| g.into_iter().map(|x| x.map(|(o, k)| (o.to_m(), k.to_m()))).collect()).collect();
    c.check(x == f.indexes, || format!("{what}: the page indexes are {x:?} instead of {:?}", f.indexes));
    c.compared(4);
    c.outcome(if f.range.is_some() { "everything found" } else { "no page indexes" });
}
fn short<T: std::fmt::Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    s.chars().take(300).collect()
}

pub fn p12(th: bool) -> Plan<'static> {
    const SHAPES: &[&[usize]] = &[&[], &[0], &[1], &[2], &[1, 1], &[0, 2]];
    const MORE: &[&[usize]] = &[&[2, 1], &[3], &[1, 1, 1], &[2, 2], &[4, 3, 2]];
    let mut jobs = vec![];
    jobs.push(Job::new("orders", if th { 4 } else { 3 }, move |c| {
        let f = file(c, SHAPES, 4);
        whole(c, f, 0, false);
    }));
    jobs.push(Job::new("more columns", if th { 3 } else { 2 }, move |c| {
        let f = file(c, MORE, if th { 6 } else { 0 });
        whole(c, f, 9, false);
    }));
    jobs.push(Job::new("deliveries", if th { 4 } else { 3 }, move |c| {
        let f = file(c, &SHAPES[1..4], 2);
        let start = *c.pick(&[0, 4, f.bytes.len() as u64, 1 << 40]);
        whole(c, f, start, true);
    }));
    Plan::new(jobs, &[
        "files of 0 to 3 row groups with up to 4 columns; every order of the indexes in the file (up to 4, thorough 6, indexes; rotations beyond); at most 3 (thorough 4) deviations among columns without, with one, with shared or with incomplete indexes, gaps before, between and after the indexes, sparse metadata or one whose values (such as ordinals) fall from row group to row group, metadata with unknown fields or written by the library itself",
        "reads that deliver one byte, half, nothing, are interrupted or fail, seeks that fail, 4 initial positions, with at most 3 (thorough 4) deviations",
        "oracle: what was put into the file",
    ])
}
