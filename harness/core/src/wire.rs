//! Reference model of the Thrift compact protocol at the level of wire values: an encoder that takes every permitted
//! form from its caller, and a decoder that also tells what the properties leave open.
//! Written from the published protocol; shares nothing with the code under test.

#[derive(Clone, PartialEq, Debug)]
pub enum W {
    Bool(bool),
    Byte(i8),
    I16(i64),
    I32(i64),
    I64(i64),
    F64(u64),
    Bin(Vec<u8>),
    /// element type nibble, elements
    List(u8, Vec<W>),
    Set(u8, Vec<W>),
    Map(u8, u8, Vec<(W, W)>),
    Struct(Vec<(i16, W)>),
}

pub const BOOL: u8 = 2;
pub const BYTE: u8 = 3;
pub const I16: u8 = 4;
pub const I32: u8 = 5;
pub const I64: u8 = 6;
pub const F64: u8 = 7;
pub const BIN: u8 = 8;
pub const LIST: u8 = 9;
pub const SET: u8 = 10;
pub const MAP: u8 = 11;
pub const STRUCT: u8 = 12;

pub const MAX_BIN: u64 = 16 * 1024 * 1024;
pub const MAX_COLL: u64 = 10_000_000;
/// Nesting up to which skipping has to work.
pub const NEST: usize = 32;

impl W {
    /// type nibble in a field header
    pub fn field_type(&self) -> u8 {
        match self {
            W::Bool(true) => 1,
            W::Bool(false) => 2,
            W::Byte(_) => 3,
            W::I16(_) => 4,
            W::I32(_) => 5,
            W::I64(_) => 6,
            W::F64(_) => 7,
            W::Bin(_) => 8,
            W::List(..) => 9,
            W::Set(..) => 10,
            W::Map(..) => 11,
            W::Struct(_) => 12,
        }
    }
    /// type nibble in a list, set or map header
    pub fn elem_type(&self) -> u8 {
        match self {
            W::Bool(_) => BOOL,
            w => w.field_type(),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            W::List(_, v) | W::Set(_, v) => 1 + v.iter().map(W::depth).max().unwrap_or(0),
            W::Map(_, _, v) => 1 + v.iter().map(|(a, b)| a.depth().max(b.depth())).max().unwrap_or(0),
            W::Struct(v) => 1 + v.iter().map(|(_, b)| b.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub fn list(items: Vec<W>) -> W {
    W::List(items.first().map_or(BYTE, W::elem_type), items)
}

pub fn zigzag(v: i64) -> u64 {
    // the k-th negative number is 2k-1, the k-th non-negative 2k
    if v < 0 {
        (!(v as u64)).wrapping_mul(2).wrapping_add(1)
    } else {
        (v as u64).wrapping_mul(2)
    }
}
pub fn unzigzag(u: u64) -> i64 {
    let h = (u / 2) as i64;
    if u % 2 == 1 {
        !h
    } else {
        h
    }
}

/// Base-128 groups, lowest first, with `pad` redundant zero groups.
pub fn varint(out: &mut Vec<u8>, v: u64, pad: usize) {
    let mut groups = vec![];
    let mut v = v;
    loop {
        groups.push((v % 128) as u8);
        v /= 128;
        if v == 0 {
            break;
        }
    }
    groups.extend(std::iter::repeat(0).take(pad));
    let last = groups.len() - 1;
    for (i, g) in groups.into_iter().enumerate() {
        out.push(if i < last { g + 128 } else { g });
    }
}
pub fn groups(v: u64) -> usize {
    let mut n = 1;
    let mut v = v / 128;
    while v != 0 {
        n += 1;
        v /= 128;
    }
    n
}

/// The choices the protocol leaves to a writer.
pub trait Form {
    /// field order; a permutation of 0..n
    fn order(&mut self, n: usize) -> Vec<usize> {
        (0..n).collect()
    }
    fn long_field(&mut self) -> bool {
        false
    }
    fn long_list(&mut self) -> bool {
        false
    }
    /// number of redundant zero groups for a number of `groups` groups
    fn pad(&mut self, _groups: usize) -> usize {
        0
    }
    /// element type tag of a bool list
    fn bool_tag(&mut self) -> u8 {
        2
    }
    fn false_byte(&mut self) -> u8 {
        2
    }
    /// the length announced for something of that length: another one makes the encoding invalid
    fn len(&mut self, real: u64) -> u64 {
        real
    }
}
pub struct Canon;
impl Form for Canon {}

fn num(out: &mut Vec<u8>, v: u64, f: &mut dyn Form) {
    let p = f.pad(groups(v));
    varint(out, v, p)
}

/// `in_coll`: as an element of a list, set or map (booleans then take a byte).
pub fn encode(w: &W, in_coll: bool, f: &mut dyn Form, out: &mut Vec<u8>) {
    match w {
        W::Bool(b) => {
            if in_coll {
                out.push(if *b { 1 } else { f.false_byte() })
            }
        }
        W::Byte(b) => out.push(*b as u8),
        W::I16(v) | W::I32(v) | W::I64(v) => num(out, zigzag(*v), f),
        W::F64(bits) => {
            for i in 0..8 {
                out.push((bits >> (8 * i)) as u8)
            }
        }
        W::Bin(b) => {
            let n = f.len(b.len() as u64);
            num(out, n, f);
            out.extend_from_slice(b)
        }
        W::List(et, v) | W::Set(et, v) => {
            let et = if *et == BOOL { f.bool_tag() } else { *et };
            let n = f.len(v.len() as u64);
            if n < 15 && !f.long_list() {
                out.push((n as u8) * 16 + et);
            } else {
                out.push(0xF0 + et);
                num(out, n, f);
            }
            for x in v {
                encode(x, true, f, out)
            }
        }
        W::Map(k, v, items) => {
            let n = f.len(items.len() as u64);
            num(out, n, f);
            if n != 0 || !items.is_empty() {
                let k = if *k == BOOL { f.bool_tag() } else { *k };
                let v = if *v == BOOL { f.bool_tag() } else { *v };
                out.push(k * 16 + v);
                for (a, b) in items {
                    encode(a, true, f, out);
                    encode(b, true, f, out);
                }
            }
        }
        W::Struct(fields) => {
            let mut last = 0i32;
            for i in f.order(fields.len()) {
                let (id, v) = &fields[i];
                let d = *id as i32 - last;
                if (1..=15).contains(&d) && !f.long_field() {
                    out.push((d as u8) * 16 + v.field_type());
                } else {
                    out.push(v.field_type());
                    num(out, zigzag(*id as i64), f);
                }
                last = *id as i32;
                encode(v, false, f, out);
            }
            out.push(0);
        }
    }
}
pub fn canon(w: &W) -> Vec<u8> {
    let mut o = vec![];
    encode(w, true, &mut Canon, &mut o);
    o
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WErr {
    Eof,
    Bad(&'static str),
    /// a declared length above the limits
    Limit,
    /// the properties leave open what happens from here on
    Open(&'static str),
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// some number has an open value
    pub wild: bool,
    /// may be accepted or rejected
    pub either: bool,
    /// header forms, paddings and the like were all the canonical ones
    depth: usize,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0, wild: false, either: false, depth: 0 }
    }
    fn byte(&mut self) -> Result<u8, WErr> {
        let x = *self.b.get(self.pos).ok_or(WErr::Eof)?;
        self.pos += 1;
        Ok(x)
    }
    /// value, and whether it is open (does not fit 64 bits, or more than ten groups)
    fn varint(&mut self) -> Result<(u64, bool), WErr> {
        let (mut v, mut n, mut open) = (0u128, 0usize, false);
        loop {
            let x = self.byte()?;
            if n < 10 {
                v += ((x % 128) as u128) << (7 * n);
            } else {
                open = true;
            }
            n += 1;
            if x < 128 {
                break;
            }
        }
        if v > u64::MAX as u128 {
            open = true;
        }
        Ok((v as u64, open))
    }
    fn int(&mut self, bits: u32) -> Result<i64, WErr> {
        // numbers that do not fit their declared type are flagged where they are used (ty::from_w)
        let _ = bits;
        let (v, open) = self.varint()?;
        if open {
            self.wild = true;
        }
        Ok(unzigzag(v))
    }
    fn len(&mut self, limit: u64) -> Result<usize, WErr> {
        let (v, open) = self.varint()?;
        if open {
            return Err(WErr::Open("length of more than ten groups"));
        }
        if v > limit {
            return Err(WErr::Limit);
        }
        Ok(v as usize)
    }
    fn nest(&mut self) {
        self.depth += 1;
        if self.depth > NEST {
            self.either = true;
        }
    }
    fn elem_ok(t: u8) -> Result<(), WErr> {
        match t {
            1..=12 => Ok(()),
            13 => Err(WErr::Open("uuid")),
            _ => Err(WErr::Bad("element type")),
        }
    }
    /// Decodes one value of wire type t. `in_coll` as for `encode`.
    pub fn value(&mut self, t: u8, in_coll: bool) -> Result<W, WErr> {
        if self.depth > 1000 {
            return Err(WErr::Open("nested beyond what the model decodes"));
        }
        Ok(match t {
            1 | 2 => {
                if in_coll {
                    let x = self.byte()?;
                    if x > 2 {
                        self.either = true;
                    }
                    W::Bool(x == 1)
                } else {
                    W::Bool(t == 1)
                }
            }
            3 => W::Byte(self.byte()? as i8),
            4 => W::I16(self.int(16)?),
            5 => W::I32(self.int(32)?),
            6 => W::I64(self.int(64)?),
            7 => {
                let mut v = 0u64;
                for i in 0..8 {
                    v += (self.byte()? as u64) << (8 * i);
                }
                W::F64(v)
            }
            8 => {
                let n = self.len(MAX_BIN)?;
                if self.b.len() - self.pos < n {
                    return Err(WErr::Eof);
                }
                let r = self.b[self.pos..self.pos + n].to_vec();
                self.pos += n;
                W::Bin(r)
            }
            9 | 10 => {
                self.nest();
                let h = self.byte()?;
                let et = h % 16;
                let n = if h / 16 == 15 { self.len(MAX_COLL)? } else { (h / 16) as usize };
                let mut v = vec![];
                if n > 0 {
                    Self::elem_ok(et)?;
                    for _ in 0..n {
                        v.push(self.value(et, true)?);
                    }
                } else if Self::elem_ok(et).is_err() {
                    // an empty list naming no proper element type
                    self.either = true;
                }
                self.depth -= 1;
                if t == 9 {
                    W::List(et, v)
                } else {
                    W::Set(et, v)
                }
            }
            11 => {
                self.nest();
                let n = self.len(MAX_COLL)?;
                let (mut k, mut x) = (0, 0);
                let mut v = vec![];
                if n > 0 {
                    let h = self.byte()?;
                    (k, x) = (h / 16, h % 16);
                    Self::elem_ok(k)?;
                    Self::elem_ok(x)?;
                    for _ in 0..n {
                        let a = self.value(k, true)?;
                        let b = self.value(x, true)?;
                        v.push((a, b));
                    }
                }
                self.depth -= 1;
                W::Map(k, x, v)
            }
            12 => {
                self.nest();
                let mut fields = vec![];
                let mut last = 0i32;
                loop {
                    let h = self.byte()?;
                    let (d, ft) = ((h / 16) as i32, h % 16);
                    if ft == 0 {
                        if h != 0 {
                            self.either = true;
                        }
                        break;
                    }
                    if d != 0 {
                        last += d;
                        if last > i16::MAX as i32 {
                            return Err(WErr::Bad("field id beyond 16 bits"));
                        }
                    } else {
                        let (v, open) = self.varint()?;
                        if open || v > 0xFFFF {
                            return Err(WErr::Open("field id out of range"));
                        }
                        last = unzigzag(v) as i32;
                    }
                    if ft == 13 {
                        return Err(WErr::Open("uuid"));
                    }
                    if ft > 13 {
                        return Err(WErr::Bad("field type"));
                    }
                    let v = self.value(ft, false)?;
                    fields.push((last as i16, v));
                }
                self.depth -= 1;
                W::Struct(fields)
            }
            13 => return Err(WErr::Open("uuid")),
            _ => return Err(WErr::Bad("wire type")),
        })
    }
}

/// Well-formedness as a decoder of the published protocol sees it, with nothing left open; used on written bytes.
pub fn decode_all(bytes: &[u8], t: u8, in_coll: bool) -> Result<W, String> {
    let mut d = Dec::new(bytes);
    let w = d.value(t, in_coll).map_err(|e| format!("{e:?} at byte {}", d.pos))?;
    if d.wild || d.either {
        return Err("not a strict encoding".into());
    }
    if d.pos != bytes.len() {
        return Err(format!("{} bytes after the value", bytes.len() - d.pos));
    }
    Ok(w)
}

/// Independent UTF-8 automaton (Unicode table 3-7).
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0x00..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        for k in 1..=n {
            let Some(&c) = b.get(i + k) else { return false };
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if c < l || c > h {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
