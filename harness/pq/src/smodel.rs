//! What a flat schema describes and what its annotations mean: the reference for P08 to P11, independent of the tool.
#![allow(dead_code)]
use compact_thrift_parquet::format::*;
use mc::explore::Ctx;

#[derive(Clone, Debug, PartialEq)]
pub struct El {
    pub rep: Option<i32>,
    pub kids: Option<i32>,
    pub ty: Option<i32>,
    pub len: Option<i32>,
    pub id: Option<i32>,
    pub name: String,
}
impl El {
    pub fn real(&self) -> SchemaElement {
        SchemaElement {
            type_: self.ty.map(Type),
            type_length: self.len,
            repetition_type: self.rep.map(FieldRepetitionType),
            name: self.name.clone(),
            num_children: self.kids,
            field_id: self.id,
            ..Default::default()
        }
    }
    pub fn leaf(&self) -> bool {
        self.kids.unwrap_or(0) == 0
    }
}
/// What the flat list describes: one entry per element, in order.
pub struct Node {
    pub def: u32,
    pub rep: u32,
    pub kids: usize,
    pub leaf: Option<u32>,
}
pub enum Tree {
    /// no tree: the list has to be rejected
    No(&'static str),
    /// may be rejected, but if it is accepted then as this tree
    May(Vec<Node>),
    Yes(Vec<Node>),
}
/// The parents that still expect children are kept on an explicit stack.
pub fn describe(l: &[El]) -> Tree {
    let mut out: Vec<Node> = vec![];
    // (children still expected, definition level, repetition level)
    let mut open: Vec<(u64, u32, u32)> = vec![];
    let mut leaves = 0;
    for (i, e) in l.iter().enumerate() {
        while open.last().is_some_and(|p| p.0 == 0) {
            open.pop();
        }
        if i > 0 && open.is_empty() {
            return Tree::No("trailing elements");
        }
        let (mut def, mut rep) = open.last().map_or((0, 0), |p| (p.1, p.2));
        if let Some(p) = open.last_mut() {
            p.0 -= 1;
        }
        match e.rep {
            None | Some(0) => {}
            Some(1) => def += 1,
            Some(2) => {
                def += 1;
                rep += 1;
            }
            Some(_) => return Tree::No("unknown repetition"),
        }
        if i == 0 && def != 0 {
            return Tree::No("root not required");
        }
        let kids = e.kids.unwrap_or(0);
        if kids < 0 {
            return Tree::No("negative number of children");
        }
        if kids == 0 {
            match e.ty {
                Some(7) if e.len.unwrap_or(0) <= 0 => return Tree::No("fixed length missing"),
                Some(0..=7) => {}
                _ => return Tree::No("type missing"),
            }
        } else {
            open.push((kids as u64, def, rep));
            // every entry is this group or encloses it
            if open.len() >= 128 {
                return Tree::No("nested too deeply");
            }
        }
        let leaf = (kids == 0).then(|| {
            leaves += 1;
            leaves - 1
        });
        out.push(Node { def, rep, kids: kids as usize, leaf });
    }
    if out.is_empty() {
        return Tree::No("empty");
    }
    if open.iter().any(|p| p.0 > 0) {
        return Tree::No("missing elements");
    }
    if out[0].leaf.is_some() {
        return Tree::May(out);
    }
    Tree::Yes(out)
}

pub fn brief(l: &[El]) -> String {
    let f = |e: &El| format!("{}:{}x{}", e.name, e.rep.map_or("-".into(), |r| r.to_string()), e.kids.map_or("-".into(), |r| r.to_string()));
    if l.len() > 24 {
        format!("{} elements: {} ..", l.len(), l[..24].iter().map(f).collect::<Vec<_>>().join(" "))
    } else {
        format!("[{}]", l.iter().map(f).collect::<Vec<_>>().join(" "))
    }
}

pub const IDS: [Option<i32>; 8] = [Some(0), None, Some(-1), Some(i32::MAX), Some(i32::MIN), Some(77), Some(256), Some(65_536)];
pub fn element(i: usize, rep: Option<i32>, kids: Option<i32>) -> El {
    let leaf = kids.unwrap_or(0) == 0;
    El { rep, kids, ty: leaf.then_some((i % 7) as i32), len: None, id: IDS[(i + i / 8) % 8], name: format!("n{i}") }
}
pub const KIDS: [Option<i32>; 6] = [None, Some(0), Some(1), Some(2), Some(3), Some(-1)];
pub const REPS: [Option<i32>; 4] = [Some(0), Some(1), Some(2), None];

/// All trees with n nodes, as child counts in depth-first order, chosen by the explorer.
pub fn shape(c: &mut Ctx, n: usize) -> Vec<usize> {
    let mut out = vec![];
    let mut left = 1; // nodes expected
    for i in 0..n {
        // after this node, n-1-i remain; they all have to be expected by someone
        let rest = n - 1 - i;
        let others = left - 1;
        // k children: others + k <= rest, and nobody is left waiting in vain
        let most = rest - others;
        let least = if others == 0 && rest > 0 { 1 } else { 0 };
        let k = least + c.choose(most - least + 1);
        left = others + k;
        out.push(k);
    }
    out
}

/// What an annotation means.
#[derive(Clone, PartialEq, Debug)]
pub enum Ann {
    Plain(&'static str),
    Decimal(i32, i32),
    Time(&'static str, bool, u8),
    Int(i32, bool),
    Variant(Option<i8>),
}

/// The logical types of the definition, by number, so that the oracle does not depend on the library's names.
#[derive(Clone, Debug, PartialEq)]
pub enum Lt {
    Simple(u8),
    Decimal(i32, i32),
    Time(bool, u8),
    Timestamp(bool, u8),
    Int(i8, bool),
    Variant(Option<i8>),
    Geometry(Option<String>),
    Geography(Option<String>, Option<i32>),
}
pub fn unit(u: u8) -> TimeUnit {
    match u {
        0 => TimeUnit::MILLIS(MilliSeconds {}),
        1 => TimeUnit::MICROS(MicroSeconds {}),
        _ => TimeUnit::NANOS(NanoSeconds {}),
    }
}
impl Lt {
    pub fn real(&self) -> LogicalType {
        match self.clone() {
            Lt::Simple(1) => LogicalType::STRING(StringType {}),
            Lt::Simple(2) => LogicalType::MAP(MapType {}),
            Lt::Simple(3) => LogicalType::LIST(ListType {}),
            Lt::Simple(4) => LogicalType::ENUM(EnumType {}),
            Lt::Simple(6) => LogicalType::DATE(DateType {}),
            Lt::Simple(11) => LogicalType::UNKNOWN(NullType {}),
            Lt::Simple(12) => LogicalType::JSON(JsonType {}),
            Lt::Simple(13) => LogicalType::BSON(BsonType {}),
            Lt::Simple(14) => LogicalType::UUID(UUIDType {}),
            Lt::Simple(15) => LogicalType::FLOAT16(Float16Type {}),
            Lt::Simple(_) => unreachable!(),
            Lt::Decimal(precision, scale) => LogicalType::DECIMAL(DecimalType { precision, scale }),
            Lt::Time(utc, u) => LogicalType::TIME(TimeType { isAdjustedToUTC: utc, unit: unit(u) }),
            Lt::Timestamp(utc, u) => LogicalType::TIMESTAMP(TimestampType { isAdjustedToUTC: utc, unit: unit(u) }),
            Lt::Int(w, s) => LogicalType::INTEGER(IntType { bitWidth: w, isSigned: s }),
            Lt::Variant(v) => LogicalType::VARIANT(VariantType { specification_version: v }),
            Lt::Geometry(crs) => LogicalType::GEOMETRY(GeometryType { crs }),
            Lt::Geography(crs, a) => LogicalType::GEOGRAPHY(GeographyType { crs, algorithm: a.map(EdgeInterpolationAlgorithm) }),
        }
    }
}
pub fn simple() -> Vec<Lt> {
    [1, 2, 3, 4, 6, 11, 12, 13, 14, 15].into_iter().map(Lt::Simple).collect()
}
pub fn logical_types() -> Vec<Lt> {
    let mut v = simple();
    for utc in [false, true] {
        for u in 0..3 {
            v.push(Lt::Time(utc, u));
            v.push(Lt::Timestamp(utc, u));
        }
        for w in [8, 16, 32, 64, 0, -1, i8::MIN] {
            v.push(Lt::Int(w, utc));
        }
    }
    for (p, s) in [(1, 0), (9, 2), (127, 127), (127, -128), (128, 0), (0, 0), (5, 6), (5, -129), (-1, -1), (i32::MAX, 0), (257, 3), (38, 256)] {
        v.push(Lt::Decimal(p, s));
    }
    for s in [None, Some(0), Some(1), Some(-1), Some(i8::MIN)] {
        v.push(Lt::Variant(s));
    }
    v.push(Lt::Geometry(None));
    v.push(Lt::Geometry(Some("OGC:CRS84".into())));
    v.push(Lt::Geography(None, None));
    v.push(Lt::Geography(Some(String::new()), Some(4)));
    v.push(Lt::Geography(None, Some(99)));
    v
}

pub fn decimal(p: i32, s: i32) -> Option<Ann> {
    ((1..=127).contains(&p) && -128 <= s && s <= p).then_some(Ann::Decimal(p, s))
}
/// The annotations a leaf may have; several where the definition leaves it open.
pub fn leaf_model(lt: &Option<Lt>, ct: Option<i32>, precision: Option<i32>, scale: Option<i32>) -> Vec<Option<Ann>> {
    let valid = match lt {
        None => None,
        Some(Lt::Simple(n)) => match n {
            1 => Some(Ann::Plain("STRING")),
            4 => Some(Ann::Plain("ENUM")),
            6 => Some(Ann::Plain("DATE")),
            11 => Some(Ann::Plain("UNKNOWN")),
            12 => Some(Ann::Plain("JSON")),
            13 => Some(Ann::Plain("BSON")),
            14 => Some(Ann::Plain("UUID")),
            15 => Some(Ann::Plain("FLOAT16")),
            _ => None,
        },
        Some(Lt::Decimal(p, s)) => decimal(*p, *s),
        Some(Lt::Time(utc, u)) => Some(Ann::Time("TIME", *utc, *u)),
        Some(Lt::Timestamp(utc, u)) => Some(Ann::Time("TIMESTAMP", *utc, *u)),
        Some(Lt::Int(w @ (8 | 16 | 32 | 64), s)) => Some(Ann::Int(*w as i32, *s)),
        Some(Lt::Int(w, s)) if *w > 0 => {
            // the definition names four widths, and converted types may be narrower: left open
            let mut v = leaf_model(&None, ct, precision, scale);
            v.push(Some(Ann::Int(*w as i32, *s)));
            return v;
        }
        Some(Lt::Int(..)) => None,
        Some(Lt::Variant(_)) => None,
        Some(Lt::Geometry(_)) => Some(Ann::Plain("GEOMETRY")),
        Some(Lt::Geography(..)) => Some(Ann::Plain("GEOGRAPHY")),
    };
    if valid.is_some() {
        return vec![valid];
    }
    match ct {
        Some(0) => vec![Some(Ann::Plain("STRING"))],
        Some(4) => vec![Some(Ann::Plain("ENUM"))],
        Some(5) => match (precision, scale) {
            (Some(p), Some(s)) => vec![decimal(p, s)],
            // a missing scale is zero for the definition, the tool asks for it
            (Some(p), None) => vec![None, decimal(p, 0)],
            (None, _) => vec![None],
        },
        Some(6) => vec![Some(Ann::Plain("DATE"))],
        Some(7) => vec![Some(Ann::Time("TIME", true, 0))],
        Some(8) => vec![Some(Ann::Time("TIME", true, 1))],
        Some(9) => vec![Some(Ann::Time("TIMESTAMP", true, 0))],
        Some(10) => vec![Some(Ann::Time("TIMESTAMP", true, 1))],
        Some(k @ 11..=14) => vec![Some(Ann::Int(8 << (k - 11), false))],
        Some(k @ 15..=18) => vec![Some(Ann::Int(8 << (k - 15), true))],
        Some(19) => vec![Some(Ann::Plain("JSON"))],
        Some(20) => vec![Some(Ann::Plain("BSON"))],
        Some(21) => vec![Some(Ann::Plain("INTERVAL"))],
        _ => vec![None],
    }
}
pub fn group_model(lt: &Option<Lt>, ct: Option<i32>) -> Option<Ann> {
    match lt {
        Some(Lt::Simple(2)) => return Some(Ann::Plain("MAP")),
        Some(Lt::Simple(3)) => return Some(Ann::Plain("LIST")),
        Some(Lt::Variant(v)) => return Some(Ann::Variant(*v)),
        _ => {}
    }
    match ct {
        Some(1) => Some(Ann::Plain("MAP")),
        Some(2) => Some(Ann::Plain("MAP_KEY_VALUE")),
        Some(3) => Some(Ann::Plain("LIST")),
        _ => None,
    }
}

pub fn converted() -> Vec<Option<i32>> {
    [None].into_iter().chain((-2..=24).map(Some)).chain([Some(i32::MIN), Some(i32::MAX), Some(256), Some(261)]).collect()
}
pub const EXTREME: [i32; 10] = [i32::MIN, i32::MIN + 1, -65_536, -257, -256, 255 * 257, 65_537, 1 << 24, i32::MAX - 1, i32::MAX];

