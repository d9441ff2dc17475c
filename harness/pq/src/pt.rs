//! The schema tool run as a program (P11), and what can be told of P08 and P09 from its output alone.
use mc::cli::Plan;
use mc::explore::{Ctx, Job};
use mc::wire::W;

mod smodel;
use smodel::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

// ---- P11 ------------------------------------------------------------------------------------------------------

/// The wire form of a logical type, independent of the library.
fn lt_wire(l: &Lt) -> W {
    let unit = |u: &u8| W::Struct(vec![(1 + *u as i16, W::Struct(vec![]))]);
    let text = |s: &String| W::Bin(s.clone().into_bytes());
    let (id, w) = match l {
        Lt::Simple(n) => (*n as i16, vec![]),
        Lt::Decimal(p, s) => (5, vec![(1, W::I32(*s as i64)), (2, W::I32(*p as i64))]),
        Lt::Time(utc, u) => (7, vec![(1, W::Bool(*utc)), (2, unit(u))]),
        Lt::Timestamp(utc, u) => (8, vec![(1, W::Bool(*utc)), (2, unit(u))]),
        Lt::Int(w, s) => (10, vec![(1, W::Byte(*w)), (2, W::Bool(*s))]),
        Lt::Variant(v) => (16, v.iter().map(|v| (1, W::Byte(*v))).collect()),
        Lt::Geometry(crs) => (17, crs.iter().map(|s| (1, text(s))).collect()),
        Lt::Geography(crs, a) => (18, crs.iter().map(|s| (1, text(s))).chain(a.iter().map(|a| (2, W::I32(*a as i64)))).collect()),
    };
    W::Struct(vec![(id, W::Struct(w))])
}
/// A schema element with everything the tool prints.
#[derive(Clone, Debug)]
struct Printed {
    el: El,
    lt: Option<Lt>,
    ct: Option<i32>,
    precision: Option<i32>,
    scale: Option<i32>,
}
impl Printed {
    fn wire(&self) -> W {
        let i = |id: i16, v: Option<i32>| v.map(|v| (id, W::I32(v as i64)));
        let mut f: Vec<(i16, W)> = vec![];
        f.extend(i(1, self.el.ty));
        f.extend(i(2, self.el.len));
        f.extend(i(3, self.el.rep));
        f.push((4, W::Bin(self.el.name.clone().into_bytes())));
        f.extend(i(5, self.el.kids));
        f.extend(i(6, self.ct));
        f.extend(i(7, self.scale));
        f.extend(i(8, self.precision));
        f.extend(i(9, self.el.id));
        f.extend(self.lt.as_ref().map(|l| (10, lt_wire(l))));
        W::Struct(f)
    }
}
fn file(version: i32, rows: i64, by: Option<&str>, l: &[Printed]) -> Vec<u8> {
    let mut f = vec![
        (1, W::I32(version as i64)),
        (2, mc::wire::list(l.iter().map(Printed::wire).collect())),
        (3, W::I64(rows)),
        (4, W::List(mc::wire::STRUCT, vec![])),
    ];
    if let W::List(t, v) = &mut f[1].1 {
        if v.is_empty() {
            *t = mc::wire::STRUCT;
        }
    }
    if let Some(s) = by {
        f.push((6, W::Bin(s.as_bytes().to_vec())));
    }
    let meta = mc::wire::canon(&W::Struct(f));
    let mut b = b"PAR1".to_vec();
    b.extend_from_slice(&meta);
    b.extend_from_slice(&(meta.len() as u32).to_le_bytes());
    b.extend_from_slice(b"PAR1");
    b
}
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let base = std::env::var_os("MC_SCRATCH").map_or_else(std::env::temp_dir, Into::into);
        let d = base.join(format!("schema-tool-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(d.join("parquet/data")).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
thread_local! {
    static SCRATCH: Scratch = Scratch::new();
}
/// Runs the tool on a file: exit code and output.
fn tool(bytes: &[u8]) -> (Option<i32>, String) {
    SCRATCH.with(|s| {
        std::fs::write(s.0.join("parquet/data/alltypes_tiny_pages.parquet"), bytes).expect("scratch file");
        let exe = std::env::current_exe().expect("own path").with_file_name("schematool");
        let o = std::process::Command::new(exe).current_dir(&s.0).stdin(std::process::Stdio::null()).output().expect("the schema tool");
        (o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned())
    })
}
fn type_name(t: i32, len: Option<i32>) -> String {
    match t {
        7 => format!("FIXED_LEN_BYTE_ARRAY({})", len.unwrap()),
        t => ["BOOLEAN", "INT32", "INT64", "INT96", "FLOAT", "DOUBLE", "BYTE_ARRAY"][t as usize].to_string(),
    }
}
/// Whether the text in parentheses tells this annotation.
fn tells(text: &str, a: &Ann) -> bool {
    let words: Vec<&str> = text.split(|c: char| !c.is_alphanumeric() && c != '-').filter(|w| !w.is_empty()).collect();
    let is = |name: &str| words.first().is_some_and(|w| w.to_uppercase() == name.replace('_', ""));
    let mut nums: Vec<i64> = words.iter().filter_map(|w| w.parse().ok()).collect();
    nums.sort();
    match a {
        Ann::Plain(n) => is(n),
        Ann::Decimal(p, s) => {
            let mut want = vec![*p as i64, *s as i64];
            want.sort();
            is("DECIMAL") && nums == want
        }
        Ann::Time(n, utc, u) => is(n) && words.contains(&if *utc { "true" } else { "false" }) && words.contains(&["Millis", "Micros", "Nanos"][*u as usize]),
        Ann::Int(w, s) => is("INTEGER") && words.last().is_some_and(|x| *x == format!("{}{w}", if *s { 'i' } else { 'u' })),
        Ann::Variant(v) => is("VARIANT") && nums == v.iter().map(|v| *v as i64).collect::<Vec<_>>(),
    }
}
fn shows(c: &mut Ctx, version: i32, rows: i64, by: Option<&str>, l: &[Printed]) {
    let bytes = file(version, rows, by, l);
    c.state(&bytes);
    c.sample(|| format!("{:?}", l.iter().take(5).collect::<Vec<_>>()));
    c.compared(1);
    let (code, out) = tool(&bytes);
    let els: Vec<El> = l.iter().map(|p| p.el.clone()).collect();
    let what = || format!("the schema tool on a file with the elements {l:?}");
    let nodes = match describe(&els) {
        Tree::No(why) => {
            c.check(code != Some(0) && !out.contains('{'), || format!("{} ({why}): exit code {code:?}, output {out:?}", what()));
            c.outcome("no tree to print");
            return;
        }
        Tree::May(_) if code != Some(0) => {
            c.outcome("a single leaf is rejected");
            return;
        }
        Tree::May(n) | Tree::Yes(n) => n,
    };
    if code != Some(0) {
        c.fail(format!("{}: exit code {code:?}, output {out:?}", what()));
    }
    let mut rest = out.as_str();
    let take = |c: &mut Ctx, rest: &mut &str, want: &str| match rest.strip_prefix(want) {
        Some(r) => *rest = r,
        None => c.fail(format!("{}: prints {out:?}; expected {want:?} at {rest:?}", what())),
    };
    take(c, &mut rest, &format!("version: {version}\nnum of rows: {rows}\n"));
    if let Some(s) = by {
        take(c, &mut rest, &format!("created by: {s}\n"));
    }
    let mut open: Vec<usize> = vec![];
    for (p, n) in l.iter().zip(&nodes) {
        while open.last() == Some(&0) {
            open.pop();
            take(c, &mut rest, &format!("{}}}\n", "  ".repeat(open.len())));
        }
        let indent = "  ".repeat(open.len());
        if let Some(k) = open.last_mut() {
            *k -= 1;
        }
        let rep = ["REQUIRED", "OPTIONAL", "REPEATED"][p.el.rep.unwrap_or(0) as usize];
        let kind = if n.leaf.is_some() { type_name(p.el.ty.unwrap(), p.el.len) } else { "group".into() };
        take(c, &mut rest, &format!("{indent}{rep} {kind} {}", p.el.name));
        let want = if n.leaf.is_some() { leaf_model(&p.lt, p.ct, p.precision, p.scale) } else { vec![group_model(&p.lt, p.ct)] };
        let end = if n.leaf.is_some() { ";\n" } else { " {\n" };
        if rest.starts_with(" (") {
            let Some((note, after)) = rest[2..].split_once(&format!("){end}")) else { c.fail(format!("{}: prints {out:?}", what())) };
            c.check(want.iter().flatten().any(|a| tells(note, a)), || format!("{}: prints the annotation {note:?} for {p:?}, expected {want:?}", what()));
            rest = after;
        } else {
            c.check(want.contains(&None), || format!("{}: prints no annotation for {p:?}, expected {want:?}", what()));
            take(c, &mut rest, end);
        }
        if n.leaf.is_none() {
            open.push(n.kids);
        }
    }
    while let Some(k) = open.pop() {
        c.check(k == 0, || "children missing".into());
        take(c, &mut rest, &format!("{}}}\n", "  ".repeat(open.len())));
    }
    c.check(rest.is_empty(), || format!("{}: prints {rest:?} after the tree", what()));
    c.outcome("printed as described");
}
fn plain_el(el: El) -> Printed {
    Printed { el, lt: None, ct: None, precision: None, scale: None }
}
fn p11(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    for n in 0..=if th { 5 } else { 4 } {
        jobs.push(Job::new(format!("trees/{n}"), 0, move |c| {
            if n == 0 {
                shows(c, 1, 0, None, &[]);
                return;
            }
            let s = shape(c, n);
            let l: Vec<Printed> = s.iter().enumerate().map(|(i, k)| plain_el(element(i, if i == 0 { None } else { *c.pick(&REPS) }, (*k > 0).then_some(*k as i32)))).collect();
            shows(c, 1, 2, Some("x"), &l);
        }));
    }
    // everything in front of the tree, and unusual names
    jobs.push(Job::new("head", 0, |c| {
        let v = *c.pick(&[1, 2, 0, -1, i32::MAX, i32::MIN]);
        let r = *c.pick(&[0, 1, -1, i64::MAX, i64::MIN, 7300]);
        let by = *c.pick(&[None, Some(""), Some("a b"), Some("\u{1f600} {}"), Some("parquet-mr version 1.13 (build 1)")]);
        let mut l = vec![plain_el(element(0, None, Some(2))), plain_el(element(1, Some(1), None)), plain_el(element(2, Some(2), None))];
        l[0].el.name = c.pick(&["schema", "", "a b", "{}", "\u{20ac}", "root {"]).to_string();
        l[1].el.name = c.pick(&["x", "", "a.b", "{", "};", "\u{1f600}"]).to_string();
        shows(c, v, r, by, &l);
    }));
    // names and creators are printed as they are
    jobs.push(Job::new("names", 0, |c| {
        let long = "n".repeat(*c.pick(&[0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]));
        let text = match long.len() {
            0 => c.pick(&[" x", "x ", "  ", "\t", "x\u{a0}", "\u{3000}x", "A", "aB", "x\r", "x\n", "a\nb", "\0", "\u{7f}", "\u{1b}[0m", "a\\b", "\"x\"", "'x'", "%s", "x;", "(x)", "x (", "\u{301}", "e\u{301}", "\u{e9}",
                "\u{fffd}", "\u{feff}x", "\u{200b}", "\u{10ffff}", "x.y.z", "list.element", "__x", "0", "-1", "NONE", "REQUIRED", "group"]).to_string(),
            _ => long + c.pick(&["", "\u{e9}", " "]),
        };
        let mut l = vec![plain_el(element(0, None, Some(2))), plain_el(element(1, Some(1), Some(1))), plain_el(element(2, Some(2), None)), plain_el(element(3, Some(0), None))];
        let at = c.choose(5);
        if at < 4 {
            l[at].el.name = text.clone();
        }
        shows(c, 1, 5, (at == 4).then_some(&text[..]), &l);
    }));
    // many columns
    jobs.push(Job::new("wide", 0, |c| {
        let n = *c.pick(&[2usize, 3, 9, 10, 11, 15, 16, 17, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000]);
        let group = c.choose(3);
        let mut l = vec![plain_el(element(0, None, Some(n as i32)))];
        for i in 0..n {
            // one of them is a group
            let here = [n, 0, n - 1][group] == i;
            l.push(plain_el(element(l.len(), Some((i % 3) as i32), here.then_some(2))));
            if here {
                l.push(plain_el(element(l.len(), Some(0), None)));
                l.push(plain_el(element(l.len(), Some(1), None)));
            }
        }
        shows(c, 1, 5, None, &l);
    }));
    // every annotation on leaves and groups, in one file each
    let lts: &'static [Lt] = Box::leak(logical_types().into_boxed_slice());
    let cts: &'static [Option<i32>] = Box::leak(converted().into_boxed_slice());
    jobs.push(Job::new("annotations", 0, move |c| {
        let lt = match c.choose(lts.len() + 1) {
            0 => None,
            i => Some(lts[i - 1].clone()),
        };
        let with = *c.pick(&[None, Some((9, 2)), Some((0, 0))]);
        let group = c.choose(2) == 1;
        // one element per converted type
        let mut l = vec![plain_el(element(0, None, Some(cts.len() as i32)))];
        for (i, ct) in cts.iter().enumerate() {
            let mut p = plain_el(element(i + 1, Some(i as i32 % 3), group.then_some(1)));
            p.lt = lt.clone();
            p.ct = *ct;
            p.precision = with.map(|w| w.0);
            p.scale = with.map(|w| w.1);
            l.push(p);
            if group {
                l.push(plain_el(element(i, Some(0), None)));
            }
        }
        shows(c, 1, 5, None, &l);
    }));
    jobs.push(Job::new("types", 0, |c| {
        let t = c.choose(9) as i32;
        let len = *c.pick(&[None, Some(0), Some(1), Some(-1), Some(16), Some(i32::MAX)]);
        let mut l = vec![plain_el(element(0, None, Some(1))), plain_el(element(1, Some(1), None))];
        l[1].el.ty = Some(t);
        l[1].el.len = len;
        shows(c, 1, 5, None, &l);
    }));
    jobs.push(Job::new("depth", 0, |c| {
        let depth = *c.pick(&[1usize, 2, 60, 126, 127, 128, 200]);
        let side = c.choose(2);
        let mut l: Vec<Printed> = vec![];
        for i in 0..depth {
            l.push(plain_el(element(l.len(), if i == 0 { None } else { Some((i % 3) as i32) }, Some(1 + side as i32))));
            if side == 1 {
                l.push(plain_el(element(l.len(), Some((i % 3) as i32), None)));
            }
        }
        l.push(plain_el(element(l.len(), Some(1), None)));
        shows(c, 1, 5, None, &l);
    }));
    // files that are no Parquet files: every truncation and every changed byte
    jobs.push(Job::new("damaged", 0, move |c| {
        let l: Vec<Printed> = vec![plain_el(element(0, None, Some(1))), plain_el(element(1, Some(1), None))];
        let mut b = file(1, 5, Some("x"), &l);
        let n = b.len();
        let ok_code = |code: Option<i32>| code.is_some_and(|x| x != 0);
        if c.choose(2) == 0 {
            let k = c.choose(n);
            b.truncate(k);
            c.state(&b);
            c.compared(1);
            let (code, out) = tool(&b);
            c.check(ok_code(code) && out.is_empty(), || format!("the schema tool on the first {k} of {n} bytes of a file: exit code {code:?}, output {out:?}"));
            c.outcome("fails on a damaged file");
        } else {
            let i = n - 8 + c.choose(8);
            let x = *c.pick(&[1u8, 0x80, 0xFF]);
            b[i] ^= x;
            c.state(&b);
            c.compared(1);
            let (code, out) = tool(&b);
            c.check(ok_code(code), || format!("the schema tool on a file whose footer byte {i} is changed by {x:#x}: exit code {code:?}, output {out:?}"));
            c.outcome("fails on a damaged file");
        }
    }));
    Plan::new(jobs, &[
        "the real program, run in a scratch directory on files encoded by the reference encoder: all trees of up to 4 (thorough 5) nodes with all repetitions; 6 x 6 x 5 versions, row counts and creators with 36 pairs of unusual names; 78 more names and lengths of names for each kind of node and the creator; up to 1000 columns, one of them a group; all combinations of 46 logical and 28 converted types on leaves and groups; all physical types with 6 lengths; nesting up to and beyond the limit",
        "every truncation of a file and 24 changes of its footer",
        "the output is compared line by line with the model; annotations by their kind and their numbers",
    ])
}

fn main() {
    mc::cli::main(
        |p, th| match p {
            "P11" => Some(p11(th)),
            // if the tool's source can not be included any more
            "P08" | "P09" => {
                let mut plan = p11(th);
                plan.jobs.retain(|j| match p {
                    "P08" => j.name.starts_with("trees") || j.name == "depth",
                    _ => j.name == "annotations" || j.name == "types",
                });
                Some(plan)
            }
            _ => None,
        },
        |_| 2,
    )
}
