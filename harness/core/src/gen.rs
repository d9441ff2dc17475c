//! Alphabets of values. `nth` is deterministic; `gen` lets the explorer deviate from it.
use crate::explore::Ctx;
use crate::ty::{Ty, M};
use crate::wire::W;

pub fn i64_edges(bits: u32) -> Vec<i64> {
    let mut v: Vec<i64> = vec![0, 1, -1];
    for k in 1..=10u32 {
        let e = 7 * k - 1; // the values around which the number of groups changes
        if e < bits - 1 {
            let p = 1i64 << e;
            v.extend([p - 1, p, -p, -p - 1]);
        }
    }
    let (max, min) = if bits == 64 { (i64::MAX, i64::MIN) } else { ((1i64 << (bits - 1)) - 1, -(1i64 << (bits - 1))) };
    v.extend([max, min]);
    if bits > 8 {
        v.extend([max - 1, min + 1, 0x55, -0x55]);
    }
    v.dedup();
    v
}
pub const F64S: [u64; 10] = [
    0,
    0x8000_0000_0000_0000,
    0x3ff0_0000_0000_0000,
    0x7ff0_0000_0000_0000,
    0xfff0_0000_0000_0000,
    0x7ff8_0000_0000_0000,
    0x7ff0_0000_0000_0001,
    0xffff_ffff_ffff_ffff,
    0x0102_0304_0506_0708,
    1,
];
pub fn text(n: usize) -> Vec<u8> {
    // n bytes of valid text with one- to four-byte characters
    let mut v = vec![];
    let parts = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\0", "z"];
    let mut i = 0;
    while v.len() < n {
        let p = parts[i % parts.len()].as_bytes();
        if v.len() + p.len() <= n {
            v.extend_from_slice(p);
        } else {
            v.push(b'x');
        }
        i += 1;
    }
    v
}
pub fn bytes(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 37 + 0x80) as u8).collect()
}

/// The k-th of an endless sequence of distinct-looking values of a type; all optionals present.
pub fn nth(ty: &Ty, k: usize) -> M {
    let x = k as i64;
    match ty {
        Ty::Bool => M::Bool(k % 2 == 0),
        Ty::I8 => M::I8(((x * 7 + 3) % 128) as i8),
        Ty::I16 => M::I16(((x * 131 + 5) % 32768) as i16),
        Ty::I32 => M::I32((x * 7919 + 11) as i32),
        Ty::I64 => M::I64(x * 1_000_003 + 13),
        Ty::F64 => M::F64((x as f64 + 0.5).to_bits()),
        Ty::Bin => M::Bin(vec![0xFF, k as u8, 0x80]),
        Ty::Str => M::Str(format!("s{k}").into_bytes()),
        Ty::List(t) => M::List((0..2).map(|i| nth(t, k * 3 + i + 1)).collect()),
        // sets: distinct elements
        Ty::Set(t) => M::List(vec![nth(t, k + 1)]),
        Ty::EncSet => M::List(vec![M::I32((k % 9) as i32), M::I32((k % 9) as i32 + 2)]),
        Ty::Enum(e) => M::I32(if e.consts.is_empty() { k as i32 } else { e.consts[k % e.consts.len()].1 }),
        Ty::Struct(d) => M::Struct(d.fields.iter().enumerate().map(|(i, f)| nth(&f.ty, k * 2 + i + 1)).collect()),
        Ty::Union(d) => {
            let i = k % d.fields.len();
            M::Union(i, Box::new(nth(&d.fields[i].ty, k + 1)))
        }
        Ty::Named(n) => panic!("nth of {n}"),
    }
}

/// The values of a scalar type worth trying.
pub fn scalars(ty: &Ty) -> Vec<M> {
    match ty {
        Ty::Bool => vec![M::Bool(true), M::Bool(false)],
        Ty::I8 => i64_edges(8).into_iter().map(|v| M::I8(v as i8)).collect(),
        Ty::I16 => i64_edges(16).into_iter().map(|v| M::I16(v as i16)).collect(),
        Ty::I32 => i64_edges(32).into_iter().map(|v| M::I32(v as i32)).collect(),
        Ty::I64 => i64_edges(64).into_iter().map(M::I64).collect(),
        Ty::F64 => F64S.iter().map(|b| M::F64(*b)).collect(),
        Ty::Bin => [0, 1, 2, 63, 127, 128, 300].iter().map(|n| M::Bin(bytes(*n))).collect(),
        Ty::Str => [0, 1, 2, 7, 63, 127, 128, 300].iter().map(|n| M::Str(text(*n))).collect(),
        Ty::Enum(e) => {
            let mut v: Vec<M> = e.consts.iter().map(|c| M::I32(c.1)).collect();
            v.extend([0, 1, -1, 31, 63, 64, 127, 128, i32::MAX, i32::MIN].map(M::I32));
            v
        }
        Ty::EncSet => {
            let mut v: Vec<M> = (0..31).map(|i| M::List(vec![M::I32(i)])).collect();
            v.push(M::List(vec![]));
            for n in [2, 14, 15, 16, 30, 31] {
                v.push(M::List((0..n).map(M::I32).collect()));
                v.push(M::List((31 - n..31).map(M::I32).collect()));
            }
            v
        }
        _ => vec![],
    }
}
pub const LENS: [usize; 8] = [0, 1, 3, 14, 15, 16, 127, 128];

#[derive(Clone, Copy)]
pub struct Gen {
    /// list lengths above this are not generated
    pub max_len: usize,
}
impl Default for Gen {
    fn default() -> Self {
        Gen { max_len: 128 }
    }
}
impl Gen {
    /// The default answer everywhere gives nth(ty, k); every other answer costs a deviation.
    pub fn gen(&self, c: &mut Ctx, ty: &Ty, k: usize) -> M {
        match ty {
            Ty::List(t) | Ty::Set(t) => {
                let lens: Vec<usize> = LENS.iter().copied().filter(|n| *n <= self.max_len).collect();
                let is_set = matches!(ty, Ty::Set(_));
                let pick = c.dev(if is_set { 3 } else { lens.len() + 1 });
                if pick == 0 {
                    let M::List(v) = nth(ty, k) else { unreachable!() };
                    let n = v.len();
                    M::List((0..n).map(|i| self.gen(c, t, if is_set { k + i + 1 } else { k * 3 + i + 1 })).collect())
                } else {
                    M::List((0..lens[pick - 1]).map(|i| nth(t, i)).collect())
                }
            }
            Ty::Struct(d) => M::Struct(
                d.fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        if !f.required && c.dev(2) == 1 {
                            M::None
                        } else {
                            self.gen(c, &f.ty, k * 2 + i + 1)
                        }
                    })
                    .collect(),
            ),
            Ty::Union(d) => {
                let n = d.fields.len();
                let i = (c.dev(n) + k) % n;
                M::Union(i, Box::new(self.gen(c, &d.fields[i].ty, k + 1)))
            }
            _ => {
                let s = scalars(ty);
                let p = c.dev(s.len() + 1);
                if p == 0 {
                    nth(ty, k)
                } else {
                    s[p - 1].clone()
                }
            }
        }
    }
    /// As `gen`, with every optional absent by default and present at the cost of a deviation.
    pub fn gen_sparse(&self, c: &mut Ctx, ty: &Ty, k: usize) -> M {
        match ty {
            Ty::Struct(d) => M::Struct(
                d.fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| {
                        if !f.required && c.dev(2) == 0 {
                            M::None
                        } else {
                            self.gen_sparse(c, &f.ty, k * 2 + i + 1)
                        }
                    })
                    .collect(),
            ),
            Ty::Union(d) => {
                let n = d.fields.len();
                let i = (c.dev(n) + k) % n;
                M::Union(i, Box::new(self.gen_sparse(c, &d.fields[i].ty, k + 1)))
            }
            Ty::List(t) => {
                let n = [1, 0, 2][c.dev(3)];
                M::List((0..n).map(|i| self.gen_sparse(c, t, k + i)).collect())
            }
            _ => self.gen(c, ty, k),
        }
    }
}

/// Wire values of every type, used as unknown fields and as things to skip. Ordered simplest first.
pub fn wire_catalogue() -> Vec<W> {
    let mut v = vec![W::Bool(true), W::Bool(false)];
    v.extend([0i8, 1, -1, -128, 127].map(W::Byte));
    v.extend([0, 1, -1, 64, -32768, 32767].map(W::I16));
    v.extend([0, -65, 8192, i32::MAX as i64, i32::MIN as i64].map(W::I32));
    v.extend([0, 1 << 34, i64::MAX, i64::MIN].map(W::I64));
    v.extend([0, 0x0102_0304_0506_0708, 0x8080_8080_8080_8080, u64::MAX].map(W::F64));
    v.extend([0usize, 1, 15, 16, 17, 127, 128, 200].map(|n| W::Bin(vec![0x80; n])));
    let elems = elems();
    for e in &elems {
        for n in [0, 1, 2, 14, 15, 16, 17] {
            v.push(W::List(e.elem_type(), vec![e.clone(); n]));
        }
        for n in [0, 1, 15] {
            v.push(W::Set(e.elem_type(), vec![e.clone(); n]));
        }
    }
    v.push(W::Map(0, 0, vec![]));
    for a in &elems {
        for b in &elems {
            v.push(W::Map(a.elem_type(), b.elem_type(), vec![(a.clone(), b.clone()); 1]));
        }
        v.push(W::Map(a.elem_type(), BYTE_, vec![(a.clone(), W::Byte(7)); 3]));
        v.push(W::Map(BYTE_, a.elem_type(), vec![(W::Byte(7), a.clone()); 16]));
    }
    v.push(W::Struct(vec![]));
    for e in &elems {
        v.push(W::Struct(vec![(1, e.clone())]));
        v.push(W::Struct(vec![(16, e.clone()), (15, e.clone()), (32767, e.clone()), (-32768, e.clone()), (0, e.clone())]));
    }
    v.push(W::Struct(vec![(1, W::Bool(true)), (2, W::Bool(false)), (1, W::Bool(false))]));
    v
}
const BYTE_: u8 = crate::wire::BYTE;
/// One or two values of each wire type.
pub fn elems() -> Vec<W> {
    vec![
        W::Bool(true),
        W::Bool(false),
        W::Byte(-3),
        W::I16(-300),
        W::I32(70000),
        W::I64(1 << 40),
        W::F64(0x8080_0000_ff00_0080),
        W::Bin(vec![0xFF, 0x00, 0x80]),
        W::List(crate::wire::I32, vec![W::I32(1), W::I32(1000)]),
        W::List(crate::wire::BOOL, vec![W::Bool(false), W::Bool(true)]),
        W::Set(BYTE_, vec![W::Byte(1)]),
        W::Map(crate::wire::BOOL, crate::wire::BIN, vec![(W::Bool(true), W::Bin(b"v".to_vec()))]),
        W::Map(0, 0, vec![]),
        W::Struct(vec![(1, W::Bool(true)), (3, W::I32(5))]),
        W::Struct(vec![]),
    ]
}
