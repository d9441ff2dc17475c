//! P04, P05, P06: finding things in files.
use crate::meta::{all, idl};
use crate::subject::*;
use compact_thrift_parquet::format::{ColumnChunk, ColumnIndex, FileMetaData, OffsetIndex, RowGroup};
use compact_thrift_parquet::{get_metadata_chunk, get_page_index_chunk, get_page_index_range, read_page_index, ParquetError};
use mc::alloc::measure;
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};
use mc::gen::nth;
use mc::hex;
use mc::ty::{encode, model_read, Verdict, M};
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom};
use std::ops::Range;

/// A file whose behaviour the explorer chooses. Bytes beyond `tail` are given by `fill`.
pub struct Disk<'c, 'a> {
    c: &'c mut Ctx<'a>,
    size: u64,
    /// where delivery stops (the file was cut short while it was read)
    end: u64,
    /// the last bytes of the file
    tail: Vec<u8>,
    pos: u64,
    faults: bool,
    /// an error was delivered, or the file ended early
    pub failed: bool,
    pub calls: usize,
    /// (position, length) of the bytes delivered
    read: Vec<(u64, usize)>,
    /// refuse reads longer than this (huge virtual files)
    refuse: usize,
}
impl<'c, 'a> Disk<'c, 'a> {
    pub fn new(c: &'c mut Ctx<'a>, size: u64, tail: Vec<u8>, pos: u64, faults: bool) -> Self {
        Disk { c, size, end: size, tail, pos, faults, failed: false, calls: 0, read: vec![], refuse: 1 << 28 }
    }
}
fn fill(i: u64) -> u8 {
    (i.wrapping_mul(167) ^ (i >> 8).wrapping_mul(13)) as u8 ^ 0x5A
}
fn contents(size: u64, tail: &[u8], r: Range<u64>) -> Vec<u8> {
    let t = size - tail.len() as u64;
    r.map(|i| if i >= t { tail[(i - t) as usize] } else { fill(i) }).collect()
}
const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::BrokenPipe];
impl Read for Disk<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if buf.len() > self.refuse {
            self.read.push((self.pos, buf.len()));
            self.failed = true;
            return Err(Error::from(ErrorKind::Other));
        }
        let left = self.end.saturating_sub(self.pos);
        let mut n = (buf.len() as u64).min(left) as usize;
        if self.faults {
            match self.c.dev(5 + KINDS.len()) {
                0 => {}
                1 => n = n.min(1),
                2 => n = n.div_ceil(2),
                3 => return Err(Error::from(ErrorKind::Interrupted)),
                4 => {
                    if n > 0 {
                        self.failed = true;
                    }
                    self.faults = false;
                    self.end = 0; // nothing more comes
                    return Ok(0);
                }
                k => {
                    self.failed = true;
                    return Err(Error::from(KINDS[k - 5]));
                }
            }
        }
        let b = contents(self.size, &self.tail, self.pos..self.pos + n as u64);
        buf[..n].copy_from_slice(&b);
        self.read.push((self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Disk<'_, '_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.calls += 1;
        if self.faults && self.c.dev(2) == 1 {
            self.failed = true;
            return Err(Error::from(ErrorKind::Other));
        }
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.size as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek to a position outside the file"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}
fn show<T>(r: &Result<T, ParquetError>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(e) => format!("{e:?}"),
    }
}

/// Room for error messages and the like, which a request for memory may take besides the file's bytes.
const SLACK: u64 = 8192;

// ---- P04 ------------------------------------------------------------------------------------------------------

/// What the file's own bytes say.
fn footer(size: u64, tail: &[u8]) -> Option<Range<u64>> {
    if size < 8 {
        return None;
    }
    let f = contents(size, tail, size - 8..size);
    if &f[4..] != b"PAR1" {
        return None;
    }
    let n = f[0] as u64 + ((f[1] as u64) << 8) + ((f[2] as u64) << 16) + ((f[3] as u64) << 24);
    if n > size - 8 {
        return None;
    }
    Some(size - 8 - n..size - 8)
}

fn lookup(c: &mut Ctx, size: u64, tail: Vec<u8>, start: u64, faults: bool) {
    let want = footer(size, &tail);
    c.state(format!("{size} {tail:?} {start}").as_bytes());
    let mut d = Disk::new(c, size, tail.clone(), start, faults);
    let (r, used) = measure(1 << 36, || guard(|| get_metadata_chunk(&mut d)));
    let (failed, calls, read) = (d.failed, d.calls, std::mem::take(&mut d.read));
    c.transitions_n(calls as u64);
    c.compared(1);
    let what = || format!("file of {size} bytes ending in {}, reader at {start}", hex(&tail));
    let r = match r {
        Ok(r) => r,
        Err(p) => c.fail(format!("{}: the footer lookup panics: {p}", what())),
    };
    if used.max_request as u64 > size + SLACK {
        c.fail(format!("{}: the footer lookup requests {} bytes of memory", what(), used.max_request));
    }
    match (&r, want, failed) {
        (Ok(_), _, true) => c.fail(format!("{}: reading failed, but the lookup gives {}", what(), show(&r, |v| format!("{} bytes", v.len())))),
        (Ok(v), Some(w), false) => {
            let good = contents(size, &tail, w.clone());
            c.check(*v == good, || format!("{}: the lookup gives {} instead of the {} bytes at {}", what(), hex(&v[..v.len().min(40)]), good.len(), w.start));
            c.outcome("the metadata");
        }
        (Ok(v), None, _) => c.fail(format!("{}: there is no valid footer, but the lookup gives {} bytes {}", what(), v.len(), hex(&v[..v.len().min(40)]))),
        (Err(e), Some(_), false) => c.fail(format!("{}: the footer is valid, but the lookup fails: {e:?} (reads {read:?})", what())),
        (Err(_), _, true) => c.outcome("failures reported"),
        (Err(_), None, false) => c.outcome("no valid footer"),
    }
}

pub fn p04(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let max = if th { 64 } else { 32 };
    // every file size, every declared length around the limits, every start
    jobs.push(Job::new("sizes", 0, move |c| {
        let size = c.choose(max + 1) as u64;
        let lens: Vec<u32> = (0..=size as u32 + 2)
            .chain([127, 128, 255, 256, 257, 65535, 65536, 1 << 24, (1 << 31) - 9, (1 << 31) - 8, (1 << 31) - 1, 1 << 31, u32::MAX - 8, u32::MAX - 7, u32::MAX - 1, u32::MAX])
            .collect();
        let n = *c.pick(&lens);
        let mut foot = n.to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let skip = foot.len().saturating_sub(size as usize);
        let start = c.choose(size as usize + 3) as u64;
        lookup(c, size, foot[skip..].to_vec(), start, false);
    }));
    // the magic: every byte value in each place
    jobs.push(Job::new("magic", 0, move |c| {
        let size = *c.pick(&[8u64, 9, 12, 20]);
        let mut foot = (c.choose(3) as u32).to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let i = 4 + c.choose(4);
        foot[i] = c.choose(256) as u8;
        lookup(c, size, foot, 0, false);
    }));
    // other well-known footers
    jobs.push(Job::new("others", 0, move |c| {
        let m = *c.pick(&[&b"PARE"[..], b"1RAP", b"par1", b"PAR2", b"AR1P", b"\0\0\0\0", b"ORC\0"]);
        let mut foot = vec![1, 0, 0, 0];
        foot.extend_from_slice(m);
        let size = 8 + c.choose(5) as u64;
        lookup(c, size, foot, 0, false);
    }));
    // a whole footer, and then something else
    jobs.push(Job::new("misplaced", 0, move |c| {
        let mut foot = (*c.pick(&[0u32, 1, 3, 9])).to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let n = c.choose(if th { 33 } else { 17 });
        match c.choose(8) {
            0 => foot.extend(vec![0; n]),
            1 => foot.extend(vec![b'\n'; n]),
            2 => foot.extend(b"\r\n".repeat(n)),
            3 => foot.extend(vec![b' '; n]),
            4 => foot.extend(vec![0xFF; n]),
            5 => foot.extend(&b"PAR1PAR1PAR1PAR1PAR1PAR1PAR1PAR1P"[..n]),
            6 => foot.extend(&b"\0\0\0\0PAR1\x01\0\0\0PARE\x02\0\0\0PAR1\0\0\0\0PAR1\n"[..n]),
            // another byte order
            _ => foot.extend(&b"\0\0\0\x021RAPPAR1\0\0\0\x01PAR1\0\x01PAR1\0\0\0"[..n.min(29)]),
        }
        let size = foot.len() as u64 + c.choose(14) as u64;
        let start = *c.pick(&[0, 4, size]);
        lookup(c, size, foot, start, false);
    }));
    // deliveries and failures
    jobs.push(Job::new("faults", if th { 4 } else { 3 }, move |c| {
        let size = *c.pick(&[8u64, 9, 12, 17, 30, 200]);
        let lens: Vec<u32> = vec![0, 1, 4, (size as u32).wrapping_sub(9), size as u32 - 8, size as u32 - 7];
        let n = *c.pick(&lens);
        let mut foot = n.to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let start = *c.pick(&[0, size, size + 5]);
        lookup(c, size, foot, start, true);
    }));
    // large files and lengths: where is read, how much is requested
    jobs.push(Job::new("large", 0, move |c| {
        let size = *c.pick(&[70_000u64, (1 << 24) + 100, (1 << 31) + 5, (1 << 32) + 100, 1 << 33, 1 << 40]);
        let n = *c.pick(&[100u32, 255, 256, 65_535, 65_536, 1_000_000, (1 << 24) - 1, 1 << 24]);
        let mut foot = n.to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        lookup(c, size, foot, size / 2, false);
    }));
    // every length around the powers of two, with and without the footer counted
    jobs.push(Job::new("powers", 0, move |c| {
        let k = 3 + c.choose(if th { 15 } else { 11 });
        let n = (1u32 << k) + c.choose(37) as u32 - 20.min(1 << k);
        let size = n as u64 + 8 + *c.pick(&[4u64, 0, 1, 8, 1000]);
        let mut foot = n.to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let start = *c.pick(&[0, size]);
        lookup(c, size, foot, start, false);
    }));
    jobs.push(Job::new("huge-metadata", 0, move |c| {
        // the reader refuses the read, so that no memory is touched; only where it starts is checked
        let size = *c.pick(&[1u64 << 33, 1 << 40]);
        let n = *c.pick(&[(1u32 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX]);
        let mut tail = n.to_le_bytes().to_vec();
        tail.extend_from_slice(b"PAR1");
        c.state(format!("{size} {n}").as_bytes());
        let mut d = Disk { c, size, end: size, tail, pos: 0, faults: false, failed: false, calls: 0, read: vec![], refuse: 64 };
        let (r, used) = measure(1 << 36, || guard(|| get_metadata_chunk(&mut d).map(|v| v.len())));
        let read = std::mem::take(&mut d.read);
        let last = read.iter().find(|x| x.1 > 64).map(|x| x.0);
        c.compared(1);
        let Ok(r) = r else { c.fail(format!("file of {size} bytes with {n} bytes of metadata: panics")) };
        c.check(r.is_err() && used.max_request as u64 <= size && last.map_or(true, |p| p == size - 8 - n as u64), || {
            format!("file of {size} bytes with {n} bytes of metadata: reads {read:?}, requests {}, gives {r:?}", used.max_request)
        });
        c.outcome("failures reported");
    }));
    // the same through the standard library's files and cursors
    jobs.push(Job::new("cursor", 0, move |c| {
        let size = c.choose(20);
        let n = *c.pick(&[0u32, 1, 3, 7, 8, 11, 12, 13, 1 << 31, u32::MAX]);
        let mut foot = n.to_le_bytes().to_vec();
        foot.extend_from_slice(b"PAR1");
        let skip = foot.len().saturating_sub(size);
        let tail = foot[skip..].to_vec();
        let whole = contents(size as u64, &tail, 0..size as u64);
        c.state(&whole);
        let r = guard(|| get_metadata_chunk(&mut std::io::Cursor::new(&whole)));
        let want = footer(size as u64, &tail).map(|w| whole[w.start as usize..w.end as usize].to_vec());
        c.compared(1);
        match r {
            Ok(r) => c.check(r.as_ref().ok() == want.as_ref(), || format!("cursor over {}: {}", hex(&whole), show(&r, |v| hex(v)))),
            Err(p) => c.fail(format!("cursor over {}: panics: {p}", hex(&whole))),
        }
        c.outcome(if want.is_some() { "the metadata" } else { "no valid footer" });
    }));
    Plan::new(jobs, &[
        "all file sizes 0..=32 (thorough 64) x all declared lengths up to the size and 16 larger ones x all initial positions; every byte value at each byte of the magic; footers followed by up to 16 (32) other bytes of 8 kinds; every length within 20 of a power of two up to 2^13 (2^17); virtual files up to 2^40 bytes",
        "every read may deliver one byte, half, everything, nothing, be interrupted or fail with 4 kinds of error, every seek may fail: all combinations with at most 3 (thorough 4) deviations",
        "the largest request for memory is measured",
    ])
}

// ---- P05 ------------------------------------------------------------------------------------------------------

type Col = (Option<i64>, Option<i32>, Option<i64>, Option<i32>);

fn metadata(groups: &[Vec<Col>]) -> FileMetaData {
    FileMetaData {
        row_groups: groups
            .iter()
            .map(|g| RowGroup {
                columns: g
                    .iter()
                    .map(|x| ColumnChunk {
                        offset_index_offset: x.0,
                        offset_index_length: x.1,
                        column_index_offset: x.2,
                        column_index_length: x.3,
                        ..Default::default()
                    })
                    .collect(),
                ..Default::default()
            })
            .collect(),
        ..Default::default()
    }
}

#[derive(PartialEq, Debug, Clone)]
enum Want {
    Bad,
    None,
    Some(i128, i128),
}
/// The possible answers: ranges of length zero may or may not count.
fn wanted(groups: &[Vec<Col>]) -> Vec<Want> {
    let mut out = vec![];
    for empty in [true, false] {
        let (mut lo, mut hi) = (i128::MAX, i128::MIN);
        for x in groups.iter().flatten() {
            let (Some(oo), Some(ol), Some(co), Some(cl)) = *x else { continue };
            if oo < 0 || ol < 0 || co < 0 || cl < 0 {
                return vec![Want::Bad];
            }
            for (o, l) in [(oo as i128, ol as i128), (co as i128, cl as i128)] {
                if l > 0 || empty {
                    lo = lo.min(o);
                    hi = hi.max(o + l);
                }
            }
        }
        out.push(if lo < hi { Want::Some(lo, hi) } else { Want::None });
    }
    out.dedup();
    out
}
fn cols(c: &mut Ctx, offs: &[Option<i64>], lens: &[Option<i32>], dev: bool) -> Col {
    if dev {
        (*c.pick_dev(offs), *c.pick_dev(lens), *c.pick_dev(offs), *c.pick_dev(lens))
    } else {
        (*c.pick(offs), *c.pick(lens), *c.pick(offs), *c.pick(lens))
    }
}
fn ranges(c: &mut Ctx, groups: &[Vec<Col>]) {
    let m = metadata(groups);
    c.state(format!("{groups:?}").as_bytes());
    c.sample(|| format!("{groups:?}"));
    c.compared(1);
    let want = wanted(groups);
    let got = match guard(|| get_page_index_range(&m)) {
        Err(p) => c.fail(format!("columns {groups:?}: the page index range panics: {p}")),
        Ok(Err(_)) => Want::Bad,
        Ok(Ok(None)) => Want::None,
        Ok(Ok(Some(r))) => Want::Some(r.start as i128, r.end as i128),
    };
    // an empty range is no range
    let got = match got {
        Want::Some(a, b) if a == b && want.contains(&Want::None) => Want::None,
        x => x,
    };
    c.check(want.contains(&got), || format!("columns {groups:?}: the page index range is {got:?}, expected {want:?}"));
    c.outcome(match got {
        Want::Bad => "negative",
        Want::None => "no index",
        Want::Some(..) => "a range",
    });
}

fn chunk(c: &mut Ctx, groups: &[Vec<Col>], size: u64, start: u64, faults: bool) {
    let m = metadata(groups);
    c.state(format!("{groups:?} {size} {start}").as_bytes());
    let want = wanted(groups);
    let mut d = Disk::new(c, size, vec![], start, faults);
    let (r, used) = measure(1 << 36, || guard(|| get_page_index_chunk(&mut d, &m)));
    let (failed, calls) = (d.failed, d.calls);
    c.transitions_n(calls as u64);
    c.compared(1);
    let what = || format!("columns {groups:?}, file of {size} bytes");
    let r = match r {
        Ok(r) => r,
        Err(p) => c.fail(format!("{}: fetching the page index panics: {p}", what())),
    };
    if used.max_request as u64 > size + SLACK {
        c.fail(format!("{}: fetching the page index requests {} bytes of memory", what(), used.max_request));
    }
    let good = |x: &Option<(Vec<u8>, Range<usize>)>| {
        want.iter().any(|w| match (w, x) {
            (Want::None, None) => true,
            (Want::None, Some((v, r))) => v.is_empty() && r.is_empty(),
            (Want::Some(a, b), Some((v, r))) => {
                *b <= size as i128 && *a == r.start as i128 && *b == r.end as i128 && *v == contents(size, &[], *a as u64..*b as u64)
            }
            _ => false,
        })
    };
    match &r {
        Ok(x) if !failed || x.is_none() => {
            c.check(good(x), || format!("{}: fetching the page index gives {}, expected {want:?}", what(), show(&r, |x| format!("{:?}", x.as_ref().map(|x| (hex(&x.0[..x.0.len().min(40)]), &x.1))))));
            c.outcome("fetched");
        }
        Ok(_) => c.fail(format!("{}: reading failed, but fetching the page index succeeds", what())),
        Err(_) => {
            let may = failed || want.iter().any(|w| matches!(w, Want::Bad) || matches!(w, Want::Some(_, b) if *b > size as i128));
            c.check(may, || format!("{}: fetching the page index fails: {}", what(), show(&r, |_| String::new())));
            c.outcome("refused or failed");
        }
    }
}

pub fn p05(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    const O: [Option<i64>; 9] = [Some(10), None, Some(0), Some(3), Some(100), Some(-1), Some(i64::MIN), Some(i64::MAX), Some(1 << 33)];
    const L: [Option<i32>; 8] = [Some(5), None, Some(1), Some(0), Some(100), Some(-1), Some(i32::MIN), Some(i32::MAX)];
    const SO: [Option<i64>; 5] = [Some(10), None, Some(0), Some(14), Some(-1)];
    const SL: [Option<i32>; 4] = [Some(5), None, Some(2), Some(-1)];
    jobs.push(Job::new("one", 0, |c| {
        let x = cols(c, &O, &L, false);
        ranges(c, &[vec![x]]);
    }));
    jobs.push(Job::new("two", 0, |c| {
        let (x, y) = (cols(c, &SO, &SL, false), cols(c, &SO, &SL, false));
        let g = if c.choose(2) == 0 { vec![vec![x, y]] } else { vec![vec![x], vec![y]] };
        ranges(c, &g);
    }));
    jobs.push(Job::new("many", if th { 3 } else { 2 }, |c| {
        let n = c.choose(4);
        let g: Vec<Vec<Col>> = (0..n).map(|_| c.choose(4)).collect::<Vec<_>>().into_iter().map(|k| (0..k).map(|_| cols(c, &O, &L, true)).collect()).collect();
        ranges(c, &g);
    }));
    // many columns or row groups, one of which is different
    jobs.push(Job::new("wide", 0, move |c| {
        let n = match c.choose(50) {
            k @ 0..=40 => k + 1,
            k => [63, 64, 65, 127, 128, 129, 255, 256, 257][k - 41],
        };
        let at = c.choose(n);
        let (usual, odd) = match c.choose(5) {
            0 => ((Some(100), Some(10), Some(200), Some(10)), (Some(300), Some(1), Some(150), Some(1))),
            1 => ((Some(100), Some(10), Some(200), Some(10)), (Some(110), Some(1), Some(50), Some(1))),
            2 => ((None, None, None, None), (Some(100), Some(10), Some(200), Some(10))),
            3 => ((Some(100), Some(10), Some(200), Some(10)), (None, None, None, None)),
            _ => ((Some(100), Some(10), Some(200), Some(10)), (Some(100), Some(-1), Some(200), Some(10))),
        };
        let all: Vec<Col> = (0..n).map(|i| if i == at { odd } else { usual }).collect();
        let groups: Vec<Vec<Col>> = match c.choose(3) {
            0 => all.into_iter().map(|x| vec![x]).collect(),
            1 => vec![all],
            _ => all.chunks(2).map(|x| x.to_vec()).collect(),
        };
        ranges(c, &groups);
    }));
    jobs.push(Job::new("chunk", 0, move |c| {
        const CO: [Option<i64>; 9] = [Some(4), None, Some(0), Some(9), Some(20), Some(-1), Some(i64::MAX), Some(1 << 33), Some(1 << 45)];
        const CL: [Option<i32>; 6] = [Some(3), None, Some(0), Some(11), Some(-1), Some(i32::MAX)];
        let x = cols(c, &CO, &CL, false);
        let size = *c.pick(&[0u64, 7, 12, 20, 21, 31, 32]);
        let start = *c.pick(&[0u64, 3, 40]);
        chunk(c, &[vec![x]], size, start, false);
    }));
    jobs.push(Job::new("chunk/faults", if th { 4 } else { 3 }, move |c| {
        let x = *c.pick(&[(Some(2), Some(3), Some(9), Some(20)), (Some(9), Some(20), Some(2), Some(3)), (Some(0), Some(29), Some(3), Some(1)), (None, Some(1), Some(1), Some(1))]);
        let y = *c.pick(&[(None, None, None, None), (Some(5), Some(1), Some(6), Some(2))]);
        let size = *c.pick(&[0u64, 28, 29, 30, 100]);
        chunk(c, &[vec![y], vec![x]], size, 7, true);
    }));
    jobs.push(Job::new("chunk/large", 0, move |c| {
        let at = *c.pick(&[1i64 << 31, (1 << 32) - 5, (1 << 32) + 5, 1 << 40]);
        let n = *c.pick(&[1i32, 1000, 100_000, 1 << 20]);
        let size = at as u64 + c.choose(3) as u64 * n as u64;
        chunk(c, &[vec![(Some(at), Some(n), Some(at + 10), Some(n - 1))]], size, 0, false);
    }));
    Plan::new(jobs, &[
        "one column: all combinations of 9 offsets and 8 lengths, absent, negative and extreme ones included; two columns in one or two row groups: all combinations of 5 offsets and 4 lengths; up to 3 row groups of up to 3 columns with at most 2 (thorough 3) deviations; 1 to 41 and around 64, 128 and 256 columns in one, as many or half as many row groups, one at any place being first, last, absent, the only one or invalid",
        "fetching: 9 offsets x 6 lengths x 7 file sizes x 3 positions; all read and seek outcomes with at most 3 (4) deviations; virtual files beyond 2^32 bytes; the largest request for memory is measured",
        "oracle in 128-bit arithmetic; ranges of length zero may or may not count",
    ])
}

// ---- P06 ------------------------------------------------------------------------------------------------------

fn index_vt(n: &str) -> &'static Vt {
    all().iter().find(|v| v.name == n).unwrap()
}

enum Entry {
    Absent,
    Value(M, M),
    Error,
    Either,
}
fn slice(b: &[u8], base: u64, off: i64, len: i32) -> Option<&[u8]> {
    if len <= 0 || off < 0 {
        return None;
    }
    let s = off as i128 - base as i128;
    let e = s + len as i128;
    if s < 0 || e > b.len() as i128 {
        return None;
    }
    Some(&b[s as usize..e as usize])
}
fn entry(b: &[u8], base: u64, x: &Col) -> Entry {
    let (Some(oo), Some(ol), Some(co), Some(cl)) = *x else { return Entry::Absent };
    let (Some(o), Some(k)) = (slice(b, base, oo, ol), slice(b, base, co, cl)) else { return Entry::Error };
    let (a, z) = (model_read(&idl().def("OffsetIndex"), o), model_read(&idl().def("ColumnIndex"), k));
    match (a, z) {
        (Verdict::Malformed(_) | Verdict::Reject(..), _) | (_, Verdict::Malformed(_) | Verdict::Reject(..)) => Entry::Error,
        (Verdict::Accept { m: a, slack: s, .. }, Verdict::Accept { m: z, slack: t, .. }) if !s.wild && !s.either && !t.wild && !t.either => Entry::Value(a, z),
        _ => Entry::Either,
    }
}

fn indexes(c: &mut Ctx, b: &[u8], base: u64, groups: &[Vec<Col>]) {
    let m = metadata(groups);
    c.state(format!("{base} {groups:?} {}", hex(b)).as_bytes());
    c.sample(|| format!("{groups:?} in a chunk of {} bytes at {base}", b.len()));
    c.compared(1);
    let what = || format!("columns {groups:?} in the {} bytes {} at {base}", b.len(), hex(b));
    let r = fenced(b, true, |b| guard(|| read_page_index(b, base as usize, &m)));
    let r = match r {
        Ok(r) => r,
        Err(p) => c.fail(format!("{}: reading the page index panics: {p}", what())),
    };
    let want: Vec<Vec<Entry>> = groups.iter().map(|g| g.iter().map(|x| entry(b, base, x)).collect()).collect();
    let flat: Vec<&Entry> = want.iter().flatten().collect();
    let bad = flat.iter().any(|e| matches!(e, Entry::Error));
    let open = flat.iter().any(|e| matches!(e, Entry::Either));
    match &r {
        Err(e) => {
            c.check(bad || open, || format!("{}: reading the page index fails: {e:?}", what()));
            c.outcome("refused");
        }
        Ok(got) => {
            c.check(!bad, || format!("{}: some column's range or index is invalid, but reading the page index succeeds", what()));
            let shape = got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a.len() == b.len());
            c.check(shape, || format!("{}: the page index has row groups of {:?} columns", what(), got.iter().map(Vec::len).collect::<Vec<_>>()));
            for (i, (g, w)) in got.iter().zip(&want).enumerate() {
                for (j, (g, w)) in g.iter().zip(w).enumerate() {
                    let got: Option<(M, M)> = g.as_ref().map(|x: &(OffsetIndex, ColumnIndex)| (x.0.to_m(), x.1.to_m()));
                    let ok = match (w, &got) {
                        (Entry::Either, _) => true,
                        (Entry::Absent, None) => true,
                        (Entry::Value(a, z), Some((x, y))) => a == x && z == y,
                        _ => false,
                    };
                    c.check(ok, || format!("{}: column {j} of row group {i} has the page index {got:?}", what()));
                }
            }
            c.outcome(if flat.iter().any(|e| matches!(e, Entry::Value(..))) { "own indexes read" } else { "no indexes" });
        }
    }
}

/// A chunk holding some offset and column indexes; positions and lengths of each.
fn chunk_bytes(n: usize) -> (Vec<u8>, Vec<(usize, usize)>, Vec<(usize, usize)>) {
    let (mut b, mut o, mut k) = (vec![0x15, 0x02], vec![], vec![]);
    for i in 0..n {
        let e = encode(&index_vt("ColumnIndex").ty, &nth(&index_vt("ColumnIndex").ty, i));
        k.push((b.len(), e.len()));
        b.extend(e);
    }
    b.push(0);
    for i in 0..n {
        let e = encode(&index_vt("OffsetIndex").ty, &nth(&index_vt("OffsetIndex").ty, i));
        o.push((b.len(), e.len()));
        b.extend(e);
    }
    b.push(0);
    (b, o, k)
}

pub fn p06(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    let bases: &'static [u64] = &[0, 7, 1000, 1 << 33];
    // one column: every offset and length around the right ones, and extreme ones
    jobs.push(Job::new("one", if th { 4 } else { 3 }, move |c| {
        let (b, o, k) = chunk_bytes(2);
        let base = *c.pick(bases);
        let col = one(c, &b, base, o[1], k[0]);
        indexes(c, &b, base, &[vec![col]]);
    }));
    jobs.push(Job::new("lengths", 0, move |c| {
        let (b, o, k) = chunk_bytes(2);
        let base = *c.pick(bases);
        let which = c.choose(2);
        let (own, other) = if which == 0 { (o[0], k[1]) } else { (k[1], o[0]) };
        // every start and every length
        let s = c.choose(b.len() + 2) as i64 - 1;
        let n = c.choose(b.len() + 2) as i32;
        let _ = own;
        let mine = (Some(base as i64 + s), Some(n));
        let rest = (Some((base as usize + other.0) as i64), Some(other.1 as i32));
        let col = if which == 0 { (mine.0, mine.1, rest.0, rest.1) } else { (rest.0, rest.1, mine.0, mine.1) };
        indexes(c, &b, base, &[vec![col]]);
    }));
    jobs.push(Job::new("several", if th { 3 } else { 2 }, move |c| {
        let (b, o, k) = chunk_bytes(3);
        let base = *c.pick(bases);
        let shapes: &[&[usize]] = &[&[], &[0], &[1, 0, 1], &[2], &[1, 2], &[3, 1]];
        let shape = *c.pick(shapes);
        let mut groups = vec![];
        let mut i = 0;
        // each column its own, all the same, the same for two
        let share = c.choose(3);
        for n in shape {
            let mut g = vec![];
            for _ in 0..*n {
                let (x, y) = [(i % 3, (i + 1) % 3), (1, 2), (i / 2 % 3, (i + 1) / 2 % 3)][share];
                g.push(one(c, &b, base, o[x], k[y]));
                i += 1;
            }
            groups.push(g);
        }
        indexes(c, &b, base, &groups);
    }));
    // which columns have indexes: every pattern, in row groups of none, one or two columns
    jobs.push(Job::new("present", 0, move |c| {
        let (b, o, k) = chunk_bytes(3);
        let base = 7;
        let n = c.choose(if th { 8 } else { 6 });
        let mut i = 0;
        let mut groups = vec![];
        for _ in 0..n {
            let mut g = vec![];
            let kind: &[bool] = *c.pick(&[&[true][..], &[false], &[], &[true, false], &[false, true]]);
            for has in kind {
                let (o, k) = (o[i % 3], k[(i + 1) % 3]);
                g.push(if *has { (Some((base + o.0) as i64), Some(o.1 as i32), Some((base + k.0) as i64), Some(k.1 as i32)) } else { (None, None, None, None) });
                i += 1;
            }
            groups.push(g);
        }
        indexes(c, &b, base as u64, &groups);
    }));
    // the same of many columns
    jobs.push(Job::new("wide", 0, move |c| {
        let (b, o, k) = chunk_bytes(3);
        let n = *c.pick(&[2, 3, 5, 8, 16, 17, 31, 33, 64, 65]);
        let at = c.choose(n);
        let usual = c.choose(2) == 0;
        let odd = c.choose(3);
        let all: Vec<Col> = (0..n).map(|i| {
            let (o, k) = if i == at && odd == 0 { (o[2], k[0]) } else { (o[0], k[1]) };
            let full = (Some(o.0 as i64), Some(o.1 as i32), Some(k.0 as i64), Some(k.1 as i32));
            match (i == at, odd) {
                (true, 2) => (Some(b.len() as i64), full.1, full.2, full.3),
                (true, 1) => if usual { (None, None, None, None) } else { full },
                (true, _) => full,
                _ => if usual { full } else { (None, None, None, None) },
            }
        }).collect();
        let groups = if c.choose(2) == 0 { vec![all] } else { all.into_iter().map(|x| vec![x]).collect() };
        indexes(c, &b, 0, &groups);
    }));
    // any single byte of the chunk changed
    jobs.push(Job::new("corrupted", 0, move |c| {
        let (mut b, o, k) = chunk_bytes(2);
        let i = c.choose(b.len());
        b[i] = if th { c.choose(256) as u8 } else { *c.pick(&[0x00, 0x15, 0x19, 0x1c, 0x80, 0xff, 0x02, 0xf5]) };
        let g: Vec<Col> = (0..2).map(|j| (Some(o[j].0 as i64), Some(o[j].1 as i32), Some(k[j].0 as i64), Some(k[j].1 as i32))).collect();
        indexes(c, &b, 0, &[g]);
    }));
    // extreme chunk offsets and empty chunks
    jobs.push(Job::new("extremes", 0, move |c| {
        let (b, _, _) = chunk_bytes(1);
        let b = if c.choose(2) == 0 { b } else { vec![] };
        let base = *c.pick(&[0u64, 1, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, u64::MAX]);
        const O: [Option<i64>; 6] = [None, Some(0), Some(-1), Some(i64::MIN), Some(i64::MAX), Some(i64::MAX - 5)];
        const L: [Option<i32>; 6] = [None, Some(0), Some(1), Some(-1), Some(i32::MIN), Some(i32::MAX)];
        let col = cols(c, &O, &L, false);
        indexes(c, &b, base, &[vec![col]]);
    }));
    Plan::new(jobs, &[
        "a chunk with 1 to 3 column and offset indexes at 4 chunk offsets; one column with every start and length inside and around the chunk for either index; up to 4 columns in up to 3 row groups, with their own or shared indexes, with at most 2 (thorough 3) deviations among absent, shifted, shortened, lengthened, negative, overflowing and foreign ranges; every pattern of up to 5 (7) row groups of 5 kinds with and without indexes; up to 65 columns of which one is different",
        "every byte of the chunk changed to 8 (all 256) values; 6 extreme chunk offsets x 6 offsets x 6 lengths for both indexes",
        "oracle: ranges in 128-bit arithmetic, contents by the reference decoder; the chunk ends at an inaccessible page",
    ])
}

/// The column's own ranges, each part of which may deviate.
fn one(c: &mut Ctx, b: &[u8], base: u64, o: (usize, usize), k: (usize, usize)) -> Col {
    let mut part = |own: (usize, usize), other: (usize, usize)| -> (Option<i64>, Option<i32>) {
        let p = base as i64 + own.0 as i64;
        let n = own.1 as i32;
        let end = (b.len() - own.0) as i32;
        let off = [Some(p), None, Some(p - 1), Some(p + 1), Some(base as i64 + other.0 as i64), Some(base as i64 - 1), Some(base as i64), Some(base as i64 + b.len() as i64), Some(-1), Some(i64::MAX), Some(own.0 as i64)];
        let len = [Some(n), None, Some(n - 1), Some(n + 1), Some(0), Some(1), Some(-1), Some(end), Some(end + 1), Some(i32::MAX), Some(i32::MIN)];
        (*c.pick_dev(&off), *c.pick_dev(&len))
    };
    let (a, n) = part(o, k);
    let (x, m) = part(k, o);
    (a, n, x, m)
}
