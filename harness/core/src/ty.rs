//! Declared types, parsed from definition text, the values they have, and what wire values denote for them.
use crate::wire::{self, Dec, WErr, W};
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Ty {
    Bool,
    I8,
    I16,
    I32,
    I64,
    F64,
    Bin,
    Str,
    List(Box<Ty>),
    Set(Box<Ty>),
    Enum(Arc<EnumDef>),
    Struct(Arc<Def>),
    Union(Arc<Def>),
    /// the set of encodings sent as a list of enum values
    EncSet,
    /// refers to a definition by name (recursive definitions)
    Named(String),
}

#[derive(Clone, Debug)]
pub struct EnumDef {
    pub name: String,
    pub consts: Vec<(String, i32)>,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub id: i16,
    pub name: String,
    pub required: bool,
    pub ty: Ty,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub fields: Vec<Field>,
}

/// A value of a declared type. Absent optionals are `None`; present ones are the value itself.
#[derive(Clone, PartialEq, Debug)]
pub enum M {
    None,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    F64(u64),
    Bin(Vec<u8>),
    Str(Vec<u8>),
    List(Vec<M>),
    Struct(Vec<M>),
    Union(usize, Box<M>),
    /// something the definition does not know
    Alien(String),
}

impl Ty {
    pub fn wire(&self) -> u8 {
        match self {
            Ty::Bool => wire::BOOL,
            Ty::I8 => wire::BYTE,
            Ty::I16 => wire::I16,
            Ty::I32 | Ty::Enum(_) => wire::I32,
            Ty::I64 => wire::I64,
            Ty::F64 => wire::F64,
            Ty::Bin | Ty::Str => wire::BIN,
            Ty::List(_) | Ty::EncSet => wire::LIST,
            Ty::Set(_) => wire::SET,
            Ty::Struct(_) | Ty::Union(_) | Ty::Named(_) => wire::STRUCT,
        }
    }
    pub fn list(t: Ty) -> Ty {
        Ty::List(Box::new(t))
    }
    pub fn default(&self) -> M {
        match self {
            Ty::Bool => M::Bool(false),
            Ty::I8 => M::I8(0),
            Ty::I16 => M::I16(0),
            Ty::I32 | Ty::Enum(_) => M::I32(0),
            Ty::I64 => M::I64(0),
            Ty::F64 => M::F64(0),
            Ty::Bin => M::Bin(vec![]),
            Ty::Str => M::Str(vec![]),
            Ty::List(_) | Ty::EncSet | Ty::Set(_) => M::List(vec![]),
            Ty::Struct(d) => M::Struct(d.fields.iter().map(|f| if f.required { f.ty.default() } else { M::None }).collect()),
            Ty::Union(d) => M::Union(0, Box::new(d.fields[0].ty.default())),
            Ty::Named(n) => panic!("default of {n}"),
        }
    }
    pub fn has_set(&self) -> bool {
        match self {
            Ty::Set(_) => true,
            Ty::List(t) => t.has_set(),
            Ty::Struct(d) | Ty::Union(d) => d.fields.iter().any(|f| f.ty.has_set()),
            _ => false,
        }
    }
}

/// Value to wire value, fields in declaration order.
pub fn to_w(ty: &Ty, m: &M) -> W {
    match (ty, m) {
        (Ty::Bool, M::Bool(b)) => W::Bool(*b),
        (Ty::I8, M::I8(v)) => W::Byte(*v),
        (Ty::I16, M::I16(v)) => W::I16(*v as i64),
        (Ty::I32 | Ty::Enum(_), M::I32(v)) => W::I32(*v as i64),
        (Ty::I64, M::I64(v)) => W::I64(*v),
        (Ty::F64, M::F64(v)) => W::F64(*v),
        (Ty::Bin, M::Bin(v)) | (Ty::Str, M::Str(v)) => W::Bin(v.clone()),
        (Ty::List(t), M::List(v)) => W::List(t.wire(), v.iter().map(|x| to_w(t, x)).collect()),
        (Ty::Set(t), M::List(v)) => W::Set(t.wire(), v.iter().map(|x| to_w(t, x)).collect()),
        (Ty::EncSet, M::List(v)) => W::List(wire::I32, v.iter().map(|x| to_w(&Ty::I32, x)).collect()),
        (Ty::Struct(d), M::Struct(v)) => {
            assert!(d.fields.len() == v.len());
            W::Struct(d.fields.iter().zip(v).filter(|(_, x)| **x != M::None).map(|(f, x)| (f.id, to_w(&f.ty, x))).collect())
        }
        (Ty::Union(d), M::Union(i, x)) => W::Struct(vec![(d.fields[*i].id, to_w(&d.fields[*i].ty, x))]),
        (t, m) => panic!("value {m:?} is not of type {t:?}"),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Rej {
    Type,
    Missing(String),
    Dup,
    Utf8,
    Unknown(String),
    EmptyUnion,
    MultiUnion,
    EncRange,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Slack {
    pub wild: bool,
    pub either: bool,
}

fn zz_fit(v: i64, bits: u32) -> bool {
    bits == 64 || (v >= -(1i64 << (bits - 1)) && v < (1i64 << (bits - 1)))
}

/// What a wire value denotes for a declared type.
pub fn from_w(ty: &Ty, w: &W, s: &mut Slack) -> Result<M, Rej> {
    Ok(match (ty, w) {
        (Ty::Bool, W::Bool(b)) => M::Bool(*b),
        (Ty::I8, W::Byte(v)) => M::I8(*v),
        (Ty::I16, W::I16(v)) => {
            if !zz_fit(*v, 16) {
                s.wild = true;
            }
            M::I16(*v as i16)
        }
        (Ty::I32 | Ty::Enum(_), W::I32(v)) => {
            if !zz_fit(*v, 32) {
                s.wild = true;
            }
            M::I32(*v as i32)
        }
        (Ty::I64, W::I64(v)) => M::I64(*v),
        (Ty::F64, W::F64(v)) => M::F64(*v),
        (Ty::Bin, W::Bin(v)) => M::Bin(v.clone()),
        (Ty::Str, W::Bin(v)) => {
            if !wire::utf8_ok(v) {
                return Err(Rej::Utf8);
            }
            M::Str(v.clone())
        }
        (Ty::List(t), W::List(et, v)) | (Ty::Set(t), W::Set(et, v)) => {
            let fits = *et == t.wire() || (t.wire() == wire::BOOL && *et == 1);
            if !fits {
                if !v.is_empty() {
                    return Err(Rej::Type);
                }
                s.either = true;
            }
            let mut out = Vec::with_capacity(v.len());
            for x in v {
                out.push(from_w(t, x, s)?);
            }
            M::List(out)
        }
        (Ty::EncSet, W::List(et, v)) => {
            if *et != wire::I32 {
                if !v.is_empty() {
                    return Err(Rej::Type);
                }
                s.either = true;
            }
            let mut set = std::collections::BTreeSet::new();
            for x in v {
                let W::I32(x) = x else { return Err(Rej::Type) };
                if !zz_fit(*x, 32) {
                    s.wild = true;
                    s.either = true;
                } else if *x < 0 || *x > 30 {
                    return Err(Rej::EncRange);
                } else {
                    set.insert(*x as i32);
                }
            }
            M::List(set.into_iter().map(M::I32).collect())
        }
        (Ty::Struct(d), W::Struct(fields)) => {
            let mut v: Vec<Option<M>> = vec![None; d.fields.len()];
            for (id, x) in fields {
                if let Some(i) = d.fields.iter().position(|f| f.id == *id) {
                    let m = from_w(&d.fields[i].ty, x, s)?;
                    if v[i].is_some() {
                        if !d.fields[i].required {
                            return Err(Rej::Dup);
                        }
                        s.wild = true;
                        s.either = true;
                    }
                    v[i] = Some(m);
                }
            }
            for (f, x) in d.fields.iter().zip(&v) {
                if f.required && x.is_none() {
                    return Err(Rej::Missing(format!("{}::{}", d.name, f.name)));
                }
            }
            M::Struct(v.into_iter().map(|x| x.unwrap_or(M::None)).collect())
        }
        (Ty::Union(d), W::Struct(fields)) => {
            let Some((id, x)) = fields.first() else { return Err(Rej::EmptyUnion) };
            let Some(i) = d.fields.iter().position(|f| f.id == *id) else { return Err(Rej::Unknown(d.name.clone())) };
            let m = from_w(&d.fields[i].ty, x, s)?;
            if fields.len() > 1 {
                return Err(Rej::MultiUnion);
            }
            M::Union(i, Box::new(m))
        }
        _ => return Err(Rej::Type),
    })
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Accept { m: M, consumed: usize, slack: Slack },
    Malformed(WErr),
    Reject(Rej, usize),
    Open(&'static str),
}

/// What the bytes denote when read as a value of the type (as a list element or top-level value).
pub fn model_read(ty: &Ty, bytes: &[u8]) -> Verdict {
    let mut d = Dec::new(bytes);
    match d.value(ty.wire(), true) {
        Err(WErr::Open(s)) => Verdict::Open(s),
        Err(e) => Verdict::Malformed(e),
        Ok(w) => {
            let mut slack = Slack { wild: d.wild, either: d.either };
            match from_w(ty, &w, &mut slack) {
                Ok(m) => Verdict::Accept { m, consumed: d.pos, slack },
                Err(r) => Verdict::Reject(r, d.pos),
            }
        }
    }
}

pub fn encode(ty: &Ty, m: &M) -> Vec<u8> {
    wire::canon(&to_w(ty, m))
}

// ---- definition text ------------------------------------------------------------------------------------------

#[derive(Default, Clone, Debug)]
pub struct Idl {
    pub types: HashMap<String, Ty>,
    pub order: Vec<String>,
}

fn lex(s: &str) -> Vec<String> {
    let mut out = vec![];
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && cs.get(i + 1) == Some(&'*') {
            i += 2;
            while !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c == '"' {
            let st = i;
            i += 1;
            while cs[i] != '"' {
                i += 1;
            }
            i += 1;
            out.push(cs[st..i].iter().collect());
        } else if c.is_alphanumeric() || c == '_' || c == '-' || c == '.' {
            let st = i;
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '-' || cs[i] == '.') {
                i += 1;
            }
            out.push(cs[st..i].iter().collect());
        } else {
            out.push(c.to_string());
            i += 1;
        }
    }
    out
}

impl Idl {
    /// Parses definitions; names must be defined before they are used, other than in recursive ones.
    pub fn parse(text: &str) -> Idl {
        let t = lex(text);
        let mut p = 0;
        let mut idl = Idl::default();
        let next = |p: &mut usize| -> String {
            let s = t.get(*p).unwrap_or_else(|| panic!("definition ends early")).clone();
            *p += 1;
            s
        };
        while p < t.len() {
            let kw = next(&mut p);
            if kw == "namespace" {
                p += 2;
                continue;
            }
            let name = next(&mut p);
            assert_eq!(next(&mut p), "{", "{name}");
            let mut consts = vec![];
            let mut fields: Vec<Field> = vec![];
            while t[p] != "}" {
                if kw == "enum" {
                    let c = next(&mut p);
                    assert_eq!(next(&mut p), "=");
                    consts.push((c, next(&mut p).parse().unwrap()));
                } else {
                    let id: i16 = next(&mut p).parse().unwrap();
                    assert_eq!(next(&mut p), ":");
                    let required = if kw == "union" {
                        true
                    } else {
                        match next(&mut p).as_str() {
                            "required" => true,
                            "optional" => false,
                            x => panic!("{name}: {x}"),
                        }
                    };
                    let mut ty = next(&mut p);
                    let mut elem = None;
                    if t[p] == "<" {
                        p += 1;
                        elem = Some(next(&mut p));
                        assert_eq!(next(&mut p), ">");
                    }
                    let fname = next(&mut p);
                    if t[p] == "=" {
                        p += 2;
                    }
                    if let (Some(_), "Box" | "Rc" | "Arc") = (&elem, ty.as_str()) {
                        ty = elem.take().unwrap();
                    }
                    let ty = match (ty.as_str(), elem) {
                        ("list", Some(e)) => Ty::list(idl.named(&e)),
                        ("set", Some(e)) => Ty::Set(Box::new(idl.named(&e))),
                        (t, None) => idl.named(t),
                        x => panic!("{x:?}"),
                    };
                    fields.push(Field { id, name: fname, required, ty });
                }
                if t[p] == ";" || t[p] == "," {
                    p += 1;
                }
            }
            p += 1;
            let ty = match kw.as_str() {
                "enum" => Ty::Enum(Arc::new(EnumDef { name: name.clone(), consts })),
                "struct" => Ty::Struct(Arc::new(Def { name: name.clone(), fields })),
                "union" => Ty::Union(Arc::new(Def { name: name.clone(), fields })),
                x => panic!("definition of a {x}"),
            };
            idl.order.push(name.clone());
            idl.types.insert(name, ty);
        }
        idl
    }
    pub fn named(&self, n: &str) -> Ty {
        match n {
            "bool" => Ty::Bool,
            "byte" | "i8" => Ty::I8,
            "i16" => Ty::I16,
            "i32" => Ty::I32,
            "i64" => Ty::I64,
            "double" => Ty::F64,
            "binary" => Ty::Bin,
            "string" | "str" | "String" => Ty::Str,
            "EncodingSet" => Ty::EncSet,
            _ => self.types.get(n).cloned().unwrap_or_else(|| Ty::Named(n.into())),
        }
    }
    pub fn def(&self, n: &str) -> Ty {
        self.types.get(n).cloned().unwrap_or_else(|| panic!("no definition {n}"))
    }
}
