//! The helpers for Parquet files. An offset that does not fit the platform is an error there; what it is is worked out
//! here with wider numbers.
use crate::{both, edges, guard, Ch};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
use compact_thrift_runtime::CompactThriftProtocol;
use std::io::{Read, Seek, SeekFrom};

/// A file of any size: zeros, and something at its end and elsewhere.
struct File {
    size: u64,
    parts: Vec<(u64, Vec<u8>)>,
    at: u64,
}
impl Read for File {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = (buf.len() as u64).min(self.size.saturating_sub(self.at)) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            let at = self.at + i as u64;
            *b = self.parts.iter().find_map(|(from, p)| at.checked_sub(*from).and_then(|d| p.get(d as usize))).copied().unwrap_or(0);
        }
        self.at += n as u64;
        Ok(n)
    }
}
impl Seek for File {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let x = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => self.size as i128 + d as i128,
            SeekFrom::Current(d) => self.at as i128 + d as i128,
        };
        self.at = u64::try_from(x).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.at)
    }
}
fn error(c: &mut Ch, e: &ParquetError) {
    match e {
        ParquetError::Io(e) => c.num("Io", e.kind() as u64),
        ParquetError::Thrift(e) => c.error(e),
        ParquetError::InvalidMagic => c.text("InvalidMagic"),
        ParquetError::InvalidOffset => c.text("InvalidOffset"),
        e => c.text(&format!("{e:?}")),
    }
}

pub fn footer(c: &mut Ch, th: bool) {
    let size = *c.pick(edges(40, th)) as u64 + 8;
    let n = *c.pick(&[0_u32, 1, 7, 8, 9, 300]);
    let mut end: Vec<u8> = (0..n).map(|k| k as u8).collect();
    // what is there may be less than what is said to be
    let said = if n == 9 { *c.pick(edges(32, th)) as u32 } else { n };
    if said != n && said as u64 + 8 <= size {
        return;
    }
    end.extend(said.to_le_bytes());
    end.extend(b"PAR1");
    let mut f = File { size, parts: vec![(size.saturating_sub(n as u64 + 8), if end.len() as u64 <= size { end.clone() } else { end[end.len() - size as usize..].to_vec() })], at: 0 };
    match guard(|| get_metadata_chunk(&mut f)) {
        Ok(Ok(b)) => c.bytes("metadata", &b),
        Ok(Err(e)) => error(c, &e),
        Err(()) => c.text("a panic"),
    }
}

fn metadata(columns: Vec<(i64, i32, i64, i32)>) -> FileMetaData {
    let mut md = FileMetaData::default();
    let mut rg = RowGroup::default();
    for (oo, ol, co, cl) in columns {
        let mut cc = ColumnChunk::default();
        cc.offset_index_offset = Some(oo);
        cc.offset_index_length = Some(ol);
        cc.column_index_offset = Some(co);
        cc.column_index_length = Some(cl);
        rg.columns.push(cc);
    }
    md.row_groups.push(rg);
    md
}
const LENGTHS: [i32; 6] = [i32::MAX, 0, -1, 1, 10, 1 << 30];

/// What the range is: of all the parts, or an error when a number is negative or an end does not fit.
fn expected(columns: &[(i64, i32, i64, i32)]) -> Result<Option<(u128, u128)>, ()> {
    let (mut min, mut max) = (u128::MAX, 0);
    for &(oo, ol, co, cl) in columns {
        for (o, l) in [(oo, ol), (co, cl)] {
            let (o, l) = (u128::try_from(o).map_err(|_| ())?, u128::try_from(l).map_err(|_| ())?);
            if o + l > usize::MAX as u128 {
                return Err(());
            }
            min = min.min(o);
            max = max.max(o + l);
        }
    }
    Ok(if min < max { Some((min, max)) } else { None })
}
pub fn ranges(c: &mut Ch, th: bool) {
    let mut columns = vec![(*c.pick(edges(63, th)) as i64, *c.pick(&LENGTHS[..if th { 6 } else { 4 }]), 20, 5)];
    match c.choose(3) {
        0 => {}
        1 => columns = columns.into_iter().map(|(a, b, c, d)| (c, d, a, b)).collect(),
        _ => columns.insert(c.choose(2), (*c.pick(if th { &[1_i64 << 32, 0, 1 << 31, i64::MAX][..] } else { &[1 << 32] }), 1, 7, 3)),
    }
    let want = expected(&columns);
    let got = guard(|| get_page_index_range(&metadata(columns.clone())));
    let same = match (&got, &want) {
        (Ok(Ok(r)), Ok(w)) => r.as_ref().map(|r| (r.start as u128, r.end as u128)) == *w,
        (Ok(Err(ParquetError::InvalidOffset)), Err(())) => true,
        _ => false,
    };
    if same {
        c.num("as expected", 1);
    } else {
        c.text(&format!("WRONG {columns:?}: {got:?} instead of {want:?}"));
    }
}
/// The chunk is what is there in the file, wherever that is, or an error where it cannot be addressed.
pub fn chunks(c: &mut Ch, th: bool) {
    let start = *c.pick(edges(62, th)) as u64 & (u64::MAX >> 1);
    let n = *c.pick(&[1, 2, 40]);
    let more = *c.pick(if th { &[0_u64, 1, 1 << 32][..] } else { &[0] });
    let short = c.choose(2) == 1;
    let content: Vec<u8> = (0..n as u8 + 3).map(|x| x ^ 0x5A).collect();
    let columns = vec![(start as i64, n, start as i64 + n as i64, 3)];
    let end = start + n as u64 + 3;
    let size = if short { end - 1 } else { end.saturating_add(more) };
    let mut f = File { size, parts: vec![(start, content.clone())], at: 11 };
    let got = guard(|| get_page_index_chunk(&mut f, &metadata(columns.clone())));
    let fits = usize::try_from(end).is_ok() && start <= i64::MAX as u64 - n as u64;
    let same = match &got {
        Ok(Ok(Some((b, r)))) => fits && !short && *b == content && r.start as u64 == start && r.end as u64 == end,
        Ok(Err(ParquetError::InvalidOffset)) => !fits || short,
        _ => false,
    };
    if same {
        c.num("as expected", 1);
    } else {
        c.text(&format!("WRONG {columns:?} of {size}: {got:?}"));
    }
}

const OFFSETS: &[u8] = &[0x19, 0x1C, 0x16, 0x08, 0x15, 0x14, 0x16, 0x00, 0x00, 0x00];
const COLUMNS: &[u8] = &[0x19, 0x11, 0x02, 0x19, 0x18, 0x01, 0x41, 0x19, 0x18, 0x01, 0x42, 0x15, 0x02, 0x00];

/// A chunk from the start of the file; the indexes may be said to be anywhere.
pub fn indexes(c: &mut Ch, th: bool) {
    let from = *c.pick(&[0_usize, 5, 1 << 31]);
    let mut chunk = OFFSETS.to_vec();
    chunk.extend(COLUMNS);
    let far = |c: &mut Ch| {
        let mut x: Vec<i64> = vec![0, 1, -1];
        x.extend(edges(62, th).iter().filter(|x| th || **x >= 1 << 31).map(|x| *x as i64));
        *c.pick(&x)
    };
    let (mut oo, mut co) = (from as i64, from as i64 + OFFSETS.len() as i64);
    let which = c.choose(2);
    let d = far(c);
    *if which == 0 { &mut oo } else { &mut co } += d;
    let columns = vec![(oo, OFFSETS.len() as i32 + c.choose(2) as i32, co, COLUMNS.len() as i32)];
    match guard(|| read_page_index(&chunk, from, &metadata(columns))) {
        Ok(Ok(x)) => {
            for (o, i) in x.iter().flatten().flatten() {
                let mut w = vec![];
                let r = guard(|| {
                    o.write_thrift(&mut w)?;
                    i.write_thrift(&mut w)
                });
                c.result("indexes", &r, 0);
                c.bytes("are", &w);
            }
        }
        Ok(Err(e)) => error(c, &e),
        Err(()) => c.text("a panic"),
    }
}
pub fn encodings(c: &mut Ch, th: bool) {
    let n = c.choose(if th { 4 } else { 3 });
    let mut b = vec![0x05 | (n as u8) << 4];
    for _ in 0..n {
        let e: &[u8] = *c.pick(&[&[0x00][..], &[0x02], &[0x10], &[0x3C], &[0x3E], &[0x40], &[0x7F], &[0x80, 0x01], &[0xFF, 0xFF, 0xFF, 0xFF, 0x0F]]);
        b.extend_from_slice(e);
    }
    both::<EncodingSet>(c, &b);
    both::<Vec<Encoding>>(c, &b);
    if let Ok(Ok(s)) = guard(|| EncodingSet::read_thrift(&mut &b[..])) {
        c.num("set of", s.len() as u64);
        s.iter().for_each(|e| c.num("", e.0 as u64));
    }
}
