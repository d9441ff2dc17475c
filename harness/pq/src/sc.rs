//! Checks of the schema tool (P08 to P10). Its source is included here because the tool is a program, not a library.
#![allow(dead_code)]
use compact_thrift_parquet::format::*;
use mc::cli::Plan;
use mc::explore::{guard, Ctx, Job};

mod schema {
    include!("/repo/parquet/src/bin/schema.rs");
    pub fn convert(elements: &[SchemaElement]) -> Result<SchemaField, ParquetError> {
        convert_schema(elements)
    }
}
use schema::{GroupLogicalType, PhysicalType, PrimitiveLogicalType, RepetitionType, SchemaField, SchemaTimeUnit};

mod smodel;
use smodel::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

// ---- P08 ------------------------------------------------------------------------------------------------------

fn flatten<'t>(t: &'t SchemaField, out: &mut Vec<&'t SchemaField>) {
    out.push(t);
    if let SchemaField::Group(g) = t {
        for k in &g.children {
            flatten(k, out);
        }
    }
}
fn physical(p: &PhysicalType) -> (i32, Option<u32>) {
    match p {
        PhysicalType::BOOLEAN => (0, None),
        PhysicalType::INT32 => (1, None),
        PhysicalType::INT64 => (2, None),
        PhysicalType::INT96 => (3, None),
        PhysicalType::FLOAT => (4, None),
        PhysicalType::DOUBLE => (5, None),
        PhysicalType::BYTE_ARRAY => (6, None),
        PhysicalType::FIXED_LEN_BYTE_ARRAY(n) => (7, Some(*n)),
    }
}

fn rebuild(c: &mut Ctx, l: &[El]) {
    let mut key = Vec::with_capacity(l.len() * 4);
    for e in l.iter().take(300) {
        key.extend_from_slice(&[e.rep.map_or(9, |r| r as u8), e.ty.map_or(99, |t| t as u8)]);
        key.extend_from_slice(&e.kids.map_or(i32::MIN, |k| k).to_le_bytes());
        key.extend_from_slice(&e.id.map_or(i32::MIN, |k| k).to_le_bytes());
    }
    key.extend_from_slice(&l.len().to_le_bytes());
    c.state(&key);
    c.sample(|| brief(l));
    let real: Vec<SchemaElement> = l.iter().map(El::real).collect();
    let want = describe(l);
    let got = match guard(|| schema::convert(&real)) {
        Ok(r) => r,
        Err(p) => c.fail(format!("{} (name:repetition x children): the schema tool panics: {p}", brief(l))),
    };
    c.compared(1);
    let nodes = match (&want, &got) {
        (Tree::No(why), Ok(_)) => c.fail(format!("{}: {why}, but the schema tool builds a tree", brief(l))),
        (Tree::No(why), Err(_)) => {
            c.outcome(why);
            return;
        }
        (Tree::May(_), Err(_)) => {
            c.outcome("a single leaf is rejected");
            return;
        }
        (Tree::Yes(_), Err(e)) => c.fail(format!("{}: describes a tree, but the schema tool fails: {e:?}", brief(l))),
        (Tree::May(n) | Tree::Yes(n), Ok(_)) => n,
    };
    let tree = got.as_ref().ok().unwrap();
    let mut flat = vec![];
    flatten(tree, &mut flat);
    c.check(flat.len() == l.len(), || format!("{}: the tree has {} nodes", brief(l), flat.len()));
    for (i, ((e, n), f)) in l.iter().zip(nodes).zip(&flat).enumerate() {
        let common = f.common();
        let rep = match common.repetition {
            RepetitionType::Required => 0,
            RepetitionType::Optional => 1,
            RepetitionType::Repeated => 2,
        };
        let (kids, leaf, phys) = match f {
            SchemaField::Group(g) => (g.children.len(), None, None),
            SchemaField::Primitive(p) => (0, Some(p.index), Some(physical(&p.physical_type))),
        };
        let id: Option<i32> = common.field_id.map(Into::into);
        let ok = common.name == e.name && f.name() == e.name && id == e.id && rep == e.rep.unwrap_or(0);
        c.check(ok, || format!("{}: node {i} is {} with field id {id:?} and repetition {rep}, expected {e:?}", brief(l), common.name));
        c.check(kids == n.kids && leaf == n.leaf, || format!("{}: node {i} has {kids} children and leaf number {leaf:?}, expected {} and {:?}", brief(l), n.kids, n.leaf));
        if n.leaf.is_some() {
            let t = e.ty.unwrap();
            let good = (t, (t == 7).then(|| e.len.unwrap() as u32));
            c.check(phys == Some(good), || format!("{}: leaf {i} has the physical type {phys:?}, expected {good:?}", brief(l)));
        }
        let levels = (common.def_level as u32, common.rep_level as u32);
        let told = (f.definition_level() as u32, f.repetition_level() as u32);
        c.check(levels == (n.def, n.rep) && told == levels && f.is_optional() == (e.rep == Some(1)), || {
            format!("{}: node {i} has definition and repetition levels {levels:?} (told {told:?}), expected {:?}", brief(l), (n.def, n.rep))
        });
    }
    let drop = guard(move || drop(got));
    c.check(drop.is_ok(), || format!("{}: dropping the tree panics", brief(l)));
    c.outcome("the tree described");
}

fn p08(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    // every list of elements up to a length: most of them describe no tree
    for n in 0..=if th { 6 } else { 5 } {
        jobs.push(Job::new(format!("lists/{n}"), 0, move |c| {
            let l: Vec<El> = (0..n).map(|i| { let k = *c.pick(&KIDS); element(i, *c.pick(&REPS), k) }).collect();
            rebuild(c, &l);
        }));
    }
    let long = if th { 7 } else { 6 };
    jobs.push(Job::new(format!("lists/{long}"), if th { 2 } else { 1 }, move |c| {
        let l: Vec<El> = (0..long).map(|i| { let k = *c.pick(&KIDS); element(i, *c.pick_dev(&REPS), k) }).collect();
        rebuild(c, &l);
    }));
    // every tree up to a size with every repetition
    for n in 1..=if th { 9 } else { 7 } {
        jobs.push(Job::new(format!("trees/{n}"), 0, move |c| {
            let s = shape(c, n);
            let l: Vec<El> = s.iter().enumerate().map(|(i, k)| element(i, if i == 0 { None } else { *c.pick(&REPS[..3]) }, (*k > 0).then_some(*k as i32))).collect();
            rebuild(c, &l);
        }));
    }
    // trees with something wrong or unusual in some element
    let big = if th { 8 } else { 6 };
    jobs.push(Job::new("deviations", if th { 3 } else { 2 }, move |c| {
        let n = 1 + c.choose(big);
        let s = shape(c, n);
        let mut l: Vec<El> = s.iter().enumerate().map(|(i, k)| element(i, if i == 0 { None } else { Some(i as i32 % 3) }, (*k > 0).then_some(*k as i32))).collect();
        for e in l.iter_mut() {
            match c.dev(20) {
                0 => {}
                1 => e.rep = Some(3),
                2 => e.rep = Some(-1),
                3 => e.rep = Some(i32::MAX),
                4 => e.rep = None,
                5 => e.rep = Some(2),
                6 => e.rep = Some(1),
                7 => e.rep = Some(256),
                8 => e.ty = None,
                9 => e.ty = Some(8),
                10 => e.ty = Some(-1),
                11 => e.ty = Some(7),
                12 => {
                    e.ty = Some(7);
                    e.len = Some(16);
                }
                13 => e.kids = Some(i32::MAX),
                14 => e.kids = Some(i32::MIN),
                15 => e.kids = Some(e.kids.unwrap_or(0) + 1),
                16 => e.kids = Some(e.kids.unwrap_or(0) - 1),
                17 => e.kids = Some(0),
                18 => e.ty = Some(2),
                19 => e.name = String::new(),
                _ => unreachable!(),
            }
        }
        // or an element too many or too few
        match c.dev(4) {
            1 => {
                l.pop();
            }
            2 => l.push(element(0, Some(0), None)),
            3 => {
                l.remove(0);
            }
            _ => {}
        }
        rebuild(c, &l);
    }));
    // chains of nested groups around the limit
    jobs.push(Job::new("chains", 0, move |c| {
        let depth = if th { 1 + c.choose(300) } else { *c.pick(&[1usize, 2, 3, 63, 64, 65, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257, 300]) };
        let pattern = c.choose(7);
        let side = c.choose(4); // leaves before or behind the chain in every group
        let mut l = vec![];
        let rep = |i: usize| match pattern {
            0 => Some(0),
            1 => Some(1),
            2 => Some(2),
            3 => None,
            4 => Some((i % 3) as i32),
            5 => Some(if i % 2 == 0 { 2 } else { 0 }),
            _ => Some(if i == depth / 2 { 2 } else { 1 }),
        };
        let mut after = 0;
        for i in 0..depth {
            let kids = 1 + (side & 1) + (side >> 1);
            l.push(element(l.len(), if i == 0 { None } else { rep(i) }, Some(kids as i32)));
            if side & 1 == 1 {
                l.push(element(l.len(), Some((i % 3) as i32), None));
            }
            after += side >> 1;
        }
        l.push(element(l.len(), rep(depth), None));
        for i in 0..after {
            l.push(element(l.len(), Some((i % 2) as i32), Some(0)));
        }
        rebuild(c, &l);
    }));
    // very deep and very wide lists
    jobs.push(Job::new("large", 0, move |c| {
        let n = *c.pick(&[1_000usize, 70_000, if th { 2_000_000 } else { 200_000 }]);
        let l: Vec<El> = match c.choose(5) {
            // nothing but groups, nested without end
            0 => (0..n).map(|i| element(i, Some(0), Some(1))).collect(),
            // one group with many leaves
            1 => (0..n).map(|i| element(i, if i == 0 { None } else { Some((i % 3) as i32) }, if i == 0 { Some(n as i32 - 1) } else { None })).collect(),
            // one too few, one too many
            2 => (0..n).map(|i| element(i, None, if i == 0 { Some(n as i32) } else { None })).collect(),
            3 => (0..n).map(|i| element(i, None, if i == 0 { Some(n as i32 - 2) } else { None })).collect(),
            // groups that all claim everything that follows
            _ => (0..n.min(70_000)).map(|i| element(i, Some(0), Some((n.min(70_000) - i - 1) as i32))).collect(),
        };
        rebuild(c, &l);
    }));
    Plan::new(jobs, &[
        "all lists of up to 5 (thorough 6) elements with 6 child counts and 4 repetitions each, all lists of 6 (7) elements with 6 child counts each and at most 1 (2) elements not required",
        "all trees of up to 7 (9) nodes with all repetitions; all trees of up to 6 (8) nodes with at most 2 (3) deviations out of 20 per element and 3 of the list's length",
        "chains of up to 300 nested groups (thorough: every depth; quick: 17 depths around the limits) with 7 patterns of repetition and leaves on either side; lists of up to 200,000 (2,000,000) elements",
    ])
}

// ---- P09 ------------------------------------------------------------------------------------------------------

fn leaf_ann(t: &PrimitiveLogicalType) -> Ann {
    use PrimitiveLogicalType as P;
    // the details are private to the tool: what it shows is its debug output
    let words = |x: &dyn std::fmt::Debug| -> Vec<String> {
        format!("{x:?}").split(|c: char| !c.is_alphanumeric() && c != '_' && c != '-').filter(|s| !s.is_empty()).map(str::to_string).collect()
    };
    let time = |w: Vec<String>| -> (bool, u8) {
        let has = |s: &str| w.iter().any(|x| x == s);
        let unit = [format!("{:?}", SchemaTimeUnit::Millis), format!("{:?}", SchemaTimeUnit::Micros), format!("{:?}", SchemaTimeUnit::Nanos)];
        (has("true"), unit.iter().position(|u| has(u)).map_or(9, |i| i as u8))
    };
    match t {
        P::String => Ann::Plain("STRING"),
        P::Enum => Ann::Plain("ENUM"),
        P::Decimal(_) => Ann::Decimal(t.precision().unwrap_or(i32::MIN), t.scale().unwrap_or(i32::MIN)),
        P::Date => Ann::Plain("DATE"),
        P::Time(o) => {
            let (utc, unit) = time(words(o));
            Ann::Time("TIME", utc, unit)
        }
        P::Timestamp(o) => {
            let (utc, unit) = time(words(o));
            Ann::Time("TIMESTAMP", utc, unit)
        }
        P::Interval => Ann::Plain("INTERVAL"),
        P::Integer(o) => {
            let s = format!("{o:?}");
            Ann::Int(s[1..].parse().unwrap_or(-999), s.starts_with('i'))
        }
        P::Unknown => Ann::Plain("UNKNOWN"),
        P::Json => Ann::Plain("JSON"),
        P::Bson => Ann::Plain("BSON"),
        P::UUID => Ann::Plain("UUID"),
        P::Float16 => Ann::Plain("FLOAT16"),
        P::Geometry => Ann::Plain("GEOMETRY"),
        P::Geography => Ann::Plain("GEOGRAPHY"),
    }
}
fn group_ann(t: &GroupLogicalType) -> Ann {
    match t {
        GroupLogicalType::List => Ann::Plain("LIST"),
        GroupLogicalType::Map => Ann::Plain("MAP"),
        GroupLogicalType::MapKeyValue => Ann::Plain("MAP_KEY_VALUE"),
        GroupLogicalType::Variant { specification_version } => Ann::Variant(*specification_version),
    }
}
fn annotation(f: &SchemaField) -> Option<Ann> {
    match f {
        SchemaField::Group(g) => g.logical_type.as_ref().map(group_ann),
        SchemaField::Primitive(p) => p.logical_type.as_ref().map(leaf_ann),
    }
}

#[derive(Clone, Debug)]
struct Leaf {
    lt: Option<Lt>,
    ct: Option<i32>,
    precision: Option<i32>,
    scale: Option<i32>,
    ty: i32,
    len: Option<i32>,
}
fn root() -> SchemaElement {
    SchemaElement { name: "root".into(), num_children: Some(1), ..Default::default() }
}
fn leaf(c: &mut Ctx, x: &Leaf, note: bool) {
    let e = SchemaElement {
        type_: Some(Type(x.ty)),
        type_length: x.len,
        repetition_type: Some(FieldRepetitionType(1)),
        name: "x".into(),
        converted_type: x.ct.map(ConvertedType),
        logicalType: x.lt.as_ref().map(Lt::real),
        precision: x.precision,
        scale: x.scale,
        ..Default::default()
    };
    if note {
        c.state(format!("{x:?}").as_bytes());
        c.sample(|| format!("{x:?}"));
    } else {
        c.states_n(1);
        c.transitions_n(1);
    }
    c.compared(1);
    let r = match guard(|| schema::convert(&[root(), e])) {
        Ok(r) => r,
        Err(p) => c.fail(format!("{x:?}: the schema tool panics: {p}")),
    };
    let fits = (0..=6).contains(&x.ty) || (x.ty == 7 && x.len.is_some_and(|n| n > 0));
    let t = match r {
        Ok(SchemaField::Group(g)) if g.children.len() == 1 => g.children.into_iter().next().unwrap(),
        Ok(_) => c.fail(format!("{x:?}: the schema has another shape")),
        Err(e) => {
            c.check(!fits, || format!("{x:?}: the schema tool fails: {e:?}"));
            c.outcome("no such physical type");
            return;
        }
    };
    c.check(fits, || format!("{x:?}: the leaf has no valid physical type, but the schema tool accepts it"));
    let SchemaField::Primitive(p) = &t else { c.fail(format!("{x:?}: read as a group")) };
    let phys = physical(&p.physical_type);
    c.check(phys == (x.ty, (x.ty == 7).then(|| x.len.unwrap() as u32)), || format!("{x:?}: the physical type is {phys:?}"));
    let got = annotation(&t);
    let want = leaf_model(&x.lt, x.ct, x.precision, x.scale);
    c.check(want.contains(&got), || format!("{x:?}: the annotation is {got:?}, expected {want:?}"));
    if let Some(l) = &p.logical_type {
        let told = (l.precision(), l.scale());
        let good = match got {
            Some(Ann::Decimal(p, s)) => (Some(p), Some(s)),
            _ => (None, None),
        };
        c.check(told == good, || format!("{x:?}: precision and scale are told as {told:?}"));
    }
    c.outcome(if got.is_some() { "annotated" } else { "no annotation" });
}
fn group(c: &mut Ctx, lt: Option<Lt>, ct: Option<i32>, nested: bool, rep: Option<i32>) {
    let e = SchemaElement {
        repetition_type: rep.map(FieldRepetitionType),
        name: "g".into(),
        num_children: Some(1),
        converted_type: ct.map(ConvertedType),
        logicalType: lt.as_ref().map(Lt::real),
        ..Default::default()
    };
    let l = SchemaElement { type_: Some(Type(1)), name: "x".into(), ..Default::default() };
    let what = || format!("group with logical type {lt:?} and converted type {ct:?}");
    c.state(format!("{nested} {rep:?} {lt:?} {ct:?}").as_bytes());
    c.sample(what);
    c.compared(1);
    let list = if nested { vec![root(), e, l] } else { vec![SchemaElement { repetition_type: None, ..e }, l] };
    let r = match guard(|| schema::convert(&list)) {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => c.fail(format!("{}: the schema tool fails: {e:?}", what())),
        Err(p) => c.fail(format!("{}: the schema tool panics: {p}", what())),
    };
    let SchemaField::Group(top) = &r else { c.fail(format!("{}: read as a leaf", what())) };
    let node = if nested { &top.children[0] } else { &r };
    let (got, want) = (annotation(node), group_model(&lt, ct));
    c.check(got == want, || format!("{}: the annotation is {got:?}, expected {want:?}", what()));
    c.outcome(if got.is_some() { "annotated" } else { "no annotation" });
}

fn p09(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    // all annotations together, with some precisions, scales and physical types
    jobs.push(Job::new("combinations", 0, move |c| {
        let lts: Vec<Option<Lt>> = [None].into_iter().chain(logical_types().into_iter().map(Some)).collect();
        let lt = c.pick(&lts).clone();
        let cts = converted();
        let ct = *c.pick(&cts);
        let some = [None, Some(0), Some(7), Some(127), Some(128), Some(-1)];
        let precision = *c.pick(&some);
        let scale = *c.pick(&some);
        let (ty, len) = if th { (c.choose(9) as i32, *c.pick(&[None, Some(16), Some(0)])) } else { *c.pick(&[(6, None), (7, Some(16)), (7, None)]) };
        leaf(c, &Leaf { lt, ct, precision, scale, ty, len }, true);
    }));
    // every precision and scale in and around the range
    let span: i32 = if th { 1200 } else { 300 };
    jobs.push(Job::new("decimals", 0, move |c| {
        let i = c.choose(2 * span as usize + 1 + EXTREME.len()) as i32;
        let p = if i <= 2 * span { i - span } else { EXTREME[(i - 2 * span - 1) as usize] };
        let form = c.choose(4);
        for s in (-span..=span).chain(EXTREME) {
            let x = match form {
                0 => Leaf { lt: Some(Lt::Decimal(p, s)), ct: None, precision: None, scale: None, ty: 6, len: None },
                1 => Leaf { lt: None, ct: Some(5), precision: Some(p), scale: Some(s), ty: 1, len: None },
                // the logical type wins if it is valid, else the converted type
                2 => Leaf { lt: Some(Lt::Decimal(p, s)), ct: Some(5), precision: Some(9), scale: Some(2), ty: 7, len: Some(9) },
                _ => Leaf { lt: Some(Lt::Decimal(0, 0)), ct: Some(5), precision: Some(p), scale: Some(s), ty: 2, len: None },
            };
            leaf(c, &x, false);
        }
    }));
    // lengths
    jobs.push(Job::new("lengths", 0, move |c| {
        let ty = *c.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, i32::MIN, i32::MAX, 256, 263]);
        let lens: Vec<Option<i32>> = [None].into_iter().chain((-300..=300).map(Some)).chain(EXTREME.map(Some)).collect();
        let len = *c.pick(&lens);
        let lt = if c.choose(2) == 0 { None } else { Some(Lt::Decimal(4, 2)) };
        leaf(c, &Leaf { lt, ct: None, precision: None, scale: None, ty, len }, true);
    }));
    // every width
    jobs.push(Job::new("widths", 0, move |c| {
        let w = c.choose(256) as u8 as i8;
        let s = c.choose(2) == 1;
        let cts = converted();
        let ct = *c.pick(&cts);
        leaf(c, &Leaf { lt: Some(Lt::Int(w, s)), ct, precision: Some(5), scale: Some(1), ty: 1, len: None }, true);
    }));
    jobs.push(Job::new("groups", 0, move |c| {
        let lts: Vec<Option<Lt>> = [None].into_iter().chain(logical_types().into_iter().map(Some)).chain((i8::MIN..=i8::MAX).map(|v| Some(Lt::Variant(Some(v))))).collect();
        let lt = c.pick(&lts).clone();
        let cts = converted();
        let ct = *c.pick(&cts);
        let nested = c.choose(2) == 1;
        let rep = *c.pick(&REPS);
        group(c, lt, ct, nested, rep);
    }));
    Plan::new(jobs, &[
        "leaves: 52 logical types (with valid and invalid parameters) x 32 converted types x 6 precisions x 6 scales x 3 physical types (thorough: 9 types x 3 lengths); groups: 308 logical types x 32 converted types x 8 places",
        "decimals: every precision and scale from -300 to 300 (thorough -1200 to 1200) and 10 extreme ones, as logical type, converted type and with the other as fallback; every integer width x 2 signs x 32 converted types; 612 lengths x 15 physical types",
    ])
}

// ---- P10 ------------------------------------------------------------------------------------------------------

/// The index of the element a path leads to: at each level the first child of that name.
fn lookup(kids: &[Vec<usize>], names: &[&str], path: &[&str]) -> Option<usize> {
    let mut at = 0;
    for p in path {
        at = *kids[at].iter().find(|k| names[**k] == *p)?;
    }
    Some(at)
}
fn children(shape: &[usize]) -> Vec<Vec<usize>> {
    let mut kids = vec![vec![]; shape.len()];
    let mut open: Vec<(usize, usize)> = vec![];
    for (i, k) in shape.iter().enumerate() {
        while open.last().is_some_and(|p| p.1 == 0) {
            open.pop();
        }
        if let Some(p) = open.last_mut() {
            kids[p.0].push(i);
            p.1 -= 1;
        }
        open.push((i, *k));
    }
    kids
}
fn p10(th: bool) -> Plan<'static> {
    const NAMES: [&str; 3] = ["a", "b", ""];
    const PARTS: [&str; 5] = ["a", "b", "", "A", "a.b"];
    let mut jobs = vec![];
    for n in 1..=if th { 9 } else { 7 } {
        jobs.push(Job::new(format!("trees/{n}"), 0, move |c| {
            let s = shape(c, n);
            // quick: the largest trees with two names
            let m = if n > 7 || !th && n > 6 { 2 } else { 3 };
            let names: Vec<&str> = (0..n).map(|i| if i == 0 { "root" } else { NAMES[c.choose(m)] }).collect();
            let real: Vec<SchemaElement> = s
                .iter()
                .enumerate()
                .map(|(i, k)| El { name: names[i].into(), ..element(i, if i == 0 { None } else { Some(i as i32 % 3) }, (*k > 0).then_some(*k as i32)) }.real())
                .collect();
            c.state(format!("{s:?} {names:?}").as_bytes());
            let what = || format!("{:?} with {s:?} children", names);
            let tree = match guard(|| schema::convert(&real)) {
                Ok(Ok(t)) => t,
                // a single leaf as root may be rejected
                Ok(Err(_)) if n == 1 => return,
                r => c.fail(format!("{}: no tree: {:?}", what(), r.map(|r| r.map(|_| ())))),
            };
            let mut flat = vec![];
            flatten(&tree, &mut flat);
            let kids = children(&s);
            c.check(flat.len() == n, || format!("{}: the tree has {} nodes", what(), flat.len()));
            c.sample(|| format!("{}: every path of up to {} of 5 names", what(), 4));
            // every path of up to 4 parts
            let mut path: Vec<usize> = vec![];
            let mut cnt = 0;
            loop {
                let parts: Vec<&str> = path.iter().map(|i| PARTS[*i]).collect();
                let want = lookup(&kids, &names, &parts);
                let got = guard(|| tree.find_field_by_path(&parts).map(|f| flat.iter().position(|x| std::ptr::eq(*x, f))));
                cnt += 1;
                if got != Ok(want.map(Some)) {
                    c.fail(format!("{}: the path {parts:?} leads to {got:?}, expected node {want:?}", what()));
                }
                // the next path, by length and then by digits
                let Some(i) = path.iter().rposition(|d| *d + 1 < PARTS.len()) else {
                    if path.len() == 4 {
                        break;
                    }
                    path = vec![0; path.len() + 1];
                    continue;
                };
                path[i] += 1;
                path[i + 1..].fill(0);
            }
            // relative to every other node
            for (i, f) in flat.iter().enumerate().skip(1) {
                for p in PARTS {
                    let want = kids[i].iter().find(|k| names[**k] == p).copied();
                    let got = guard(|| f.find_field_by_path(&[p]).map(|f| flat.iter().position(|x| std::ptr::eq(*x, f))));
                    cnt += 1;
                    c.check(got == Ok(want.map(Some)), || format!("{}: from node {i} the path [{p:?}] leads to {got:?}, expected {want:?}", what()));
                }
            }
            c.compared(cnt);
            c.outcome_n("paths looked up", cnt);
        }));
    }
    jobs.push(Job::new("deep-and-wide", 0, move |c| {
        let deep = c.choose(2) == 1;
        let n = if deep { *c.pick(&[2usize, 17, 65, 120, 127]) } else { *c.pick(&[2usize, 257, 1000, 65_537]) };
        let real: Vec<SchemaElement> = (0..n)
            .map(|i| {
                let kids = if deep { (i + 1 < n).then_some(1) } else { (i == 0).then_some(n as i32 - 1) };
                El { name: if i == 0 { "root".into() } else { format!("f{}", i % 60_000) }, ..element(i, if i == 0 { None } else { Some(i as i32 % 3) }, kids) }.real()
            })
            .collect();
        let tree = match guard(|| schema::convert(&real)) {
            Ok(Ok(t)) => t,
            r => c.fail(format!("{n} elements, nested {deep}: no tree: {:?}", r.map(|r| r.map(|_| ())))),
        };
        let mut flat = vec![];
        flatten(&tree, &mut flat);
        for i in [1, 2, n / 2, n - 2, n - 1] {
            if i == 0 || i >= n {
                continue;
            }
            let parts: Vec<String> = if deep { (1..=i).map(|i| format!("f{i}")).collect() } else { vec![format!("f{}", i % 60_000)] };
            let parts: Vec<&str> = parts.iter().map(String::as_str).collect();
            let want = if deep { i } else if i >= 60_000 { i - 60_000 } else { i };
            let want = if want == 0 { 60_000 } else { want };
            let got = guard(|| tree.find_field_by_path(&parts).map(|f| flat.iter().position(|x| std::ptr::eq(*x, f))));
            c.compared(1);
            c.check(got == Ok(Some(Some(want))), || format!("{n} elements, nested {deep}: the path to node {i} leads to {got:?}, expected {want}"));
        }
        c.state(&[deep as u8, (n % 251) as u8]);
        c.outcome("deep and wide trees");
    }));
    Plan::new(jobs, &[
        "all trees of up to 7 (thorough 9) nodes with all assignments of 3 names (the largest: 2 names), so that names repeat among and across siblings; all 781 paths of up to 4 of 5 names from the root, and all single names from every other node; the node found is compared by identity",
        "chains of up to 127 nodes and up to 65537 siblings",
    ])
}

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "P08" => p08(th),
                "P09" => p09(th),
                "P10" => p10(th),
                _ => return None,
            })
        },
        |_| 2,
    )
}
