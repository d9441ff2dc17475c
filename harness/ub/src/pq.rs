//! The helpers for Parquet files.
use crate::{guard, look, looks, Ch, Manner, Source};
use compact_thrift_parquet::format::*;
use compact_thrift_parquet::*;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol};
use std::io::{Read, Seek, SeekFrom};

struct File<'b> {
    all: &'b [u8],
    at: u64,
    manner: Manner,
    piece: usize,
    /// the number of the read that fails
    fails: usize,
}
impl Read for File<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.fails == 0 {
            return Err(std::io::ErrorKind::ConnectionReset.into());
        }
        self.fails -= 1;
        let from = (self.at as usize).min(self.all.len());
        let mut s = Source { b: &self.all[from..], piece: self.piece, end: Ok(()), manner: self.manner };
        let r = s.read(buf);
        self.manner = s.manner;
        if let Ok(n) = r {
            self.at += n as u64;
        }
        r
    }
}
impl Seek for File<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let x = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => self.all.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.at as i128 + d as i128,
        };
        if x < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.at = x as u64;
        Ok(self.at)
    }
}
fn file<'b>(c: &mut Ch, all: &'b [u8]) -> File<'b> {
    let (mut piece, mut fails, mut manner) = (usize::MAX, usize::MAX, Manner::Plain);
    match c.choose(3) {
        0 => {
            manner = match c.choose(4) {
                0 => Manner::Looks,
                n => Manner::Lies(n - 1),
            }
        }
        1 => fails = c.choose(4),
        _ => {}
    }
    if c.choose(2) == 1 {
        piece = 3;
    }
    File { all, at: 0, manner, piece, fails }
}

pub fn footer(c: &mut Ch, th: bool) {
    let mut all = b"PAR1\x15\x02\x19\x0c\x16\x00\x19\x0c\x00".to_vec();
    let n = if th { c.choose(15) } else { [13, 1, 14][c.choose(3)] } as u32;
    all.extend(n.to_le_bytes());
    all.extend(b"PAR1");
    let mut f = file(c, &all);
    let r = guard(|| get_metadata_chunk(&mut f));
    c.looked += 1;
    if let Ok(Ok(b)) = r {
        look(&b);
        if let Ok(m) = FileMetaData::read_thrift(&mut CompactThriftInputSlice::new(&b)) {
            looks(&m, &m);
        }
    }
}

const OFFSETS: &[u8] = &[0x19, 0x1C, 0x16, 0x08, 0x15, 0x14, 0x16, 0x00, 0x00, 0x00];
const COLUMNS: &[u8] = &[0x19, 0x11, 0x02, 0x19, 0x18, 0x01, 0x41, 0x19, 0x18, 0x01, 0x42, 0x15, 0x02, 0x00];

pub fn indexes(c: &mut Ch, th: bool) {
    let mut all = vec![0xEE_u8; 5];
    all.extend_from_slice(OFFSETS);
    all.extend_from_slice(COLUMNS);
    all.extend_from_slice(&[0xEE; 3]);
    let (o, n) = (OFFSETS.len() as i64, COLUMNS.len() as i64);
    let mut cc = ColumnChunk::default();
    let k = if th { 5 } else { 3 };
    let d = [0_i64, 40, -1, 1, i64::MIN][c.choose(k)];
    let e = [0_i64, 40, -1, 1, i32::MIN as i64][c.choose(k)];
    let which = c.choose(2);
    cc.offset_index_offset = Some(5_i64.wrapping_add(if which == 0 { d } else { 0 }));
    cc.offset_index_length = Some((o as i32).wrapping_add(if which == 0 { e as i32 } else { 0 }));
    cc.column_index_offset = Some((5 + o).wrapping_add(if which == 1 { d } else { 0 }));
    cc.column_index_length = Some((n as i32).wrapping_add(if which == 1 { e as i32 } else { 0 }));
    let mut md = FileMetaData::default();
    let mut rg = RowGroup::default();
    rg.columns = vec![cc, ColumnChunk::default()];
    md.row_groups = vec![rg];
    let mut f = if d == 0 && e == 0 { file(c, &all) } else { File { all: &all, at: 0, manner: Manner::Plain, piece: 5, fails: usize::MAX } };
    let r = guard(|| get_page_index_chunk(&mut f, &md));
    c.looked += 1;
    match r {
        Ok(Ok(Some((b, range)))) => {
            look(&b);
            for from in [range.start, range.start + 1, range.start.saturating_sub(1), 0, usize::MAX] {
                if let Ok(Ok(x)) = guard(|| read_page_index(&b, from, &md)) {
                    looks(&x, &x);
                }
            }
        }
        Ok(Ok(None)) => {}
        _ => {
            // the whole file as the chunk
            if let Ok(Ok(x)) = guard(|| read_page_index(&all, 0, &md)) {
                looks(&x, &x);
            }
        }
    }
}
pub fn set(c: &mut Ch, th: bool) {
    let n = c.choose(if th { 4 } else { 3 });
    let mut b = vec![0x05 | (n as u8) << 4];
    for _ in 0..n {
        b.extend_from_slice(*c.pick(&[&[0x00][..], &[0x10], &[0x3E], &[0x40], &[0x7F], &[0x80, 0x01], &[0xFF, 0xFF, 0xFF, 0xFF, 0x0F]]));
    }
    let mut s = EncodingSet::default();
    let _ = guard(|| s.fill_thrift(&mut CompactThriftInputSlice::new(&b)).is_ok());
    let _ = guard(|| s.iter().fold(s.len() as i32, |x, e| x ^ e.0));
    let mut w = vec![];
    let _ = guard(|| s.write_thrift(&mut w).is_ok());
    look(&w);
    c.looked += 1;
}

