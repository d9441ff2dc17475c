"""Part of R26: every small safe program of a bounded family (where the bytes are kept, how a value is read from them, how
it then outlives, shares or races with them) is offered to the compiler. The ones it accepts are executed under Miri.
A program that safe code is not meant to be able to write is expected to be refused; if a change makes the compiler accept it,
its execution shows whether that is harmful. For each way of reading, a control that respects the rules must compile."""
import concurrent.futures, os, re, shutil, subprocess

PRELUDE = """#![forbid(unsafe_code)]
#![allow(unused, dead_code)]
"""
COMMON = """use compact_thrift_runtime::*;
use std::borrow::Cow; use std::rc::Rc; use std::sync::Arc; use std::fmt::Debug; use std::hint::black_box;
pub fn show<T: Debug>(x: &T) { black_box(format!("{x:?}")); }
thrift! {
    struct Shared { 1: required Rc<string> a; 2: optional Rc<str> b; }
    union Either { 1: Rc<string> a 2: i32 b }
    struct Outer { 1: required Box<Shared> a; 2: optional list<Shared> b; 3: optional Either c; }
    struct Plain { 1: required Arc<string> a; 2: optional string b; 3: optional list<i32> c; }
    enum Number { ONE = 1; }
}
#[derive(Debug, Default, Clone)] pub struct Mine<'a>(pub Cow<'a, str>);
impl<'i> CompactThriftProtocol<'i> for Mine<'i> {
    const FIELD_TYPE: u8 = 8;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> { self.0.fill_thrift(i) }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> { self.0.write_thrift(o) }
}
#[derive(Debug, Default, Clone)] pub struct Counted(pub std::cell::Cell<i32>);
impl<'i> CompactThriftProtocol<'i> for Counted {
    const FIELD_TYPE: u8 = 5;
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, i: &mut T) -> Result<(), ThriftError> { self.0.set(i.read_i32()?); Ok(()) }
    fn write_thrift<T: CompactThriftOutput>(&self, o: &mut T) -> Result<(), ThriftError> { self.0.set(self.0.get() + 1); o.write_i32(self.0.get()) }
}
"""
TEXT, LIST = "4, b't', b'e', b'x', b't'", "0x28, 2, b'a', b'b', 1, b'c'"


def routes():
    """name, bytes, how a value is read from `bytes: &[u8]`"""
    s = "CompactThriftInputSlice::new(bytes)"
    for kind, i in (("slice", s), ("stream", "{bytes}")):
        m = f"let mut i = {i};"
        # a reader of a slice is used by reference
        yield f"{kind}/read_binary", TEXT, f"{{ {m} CompactThriftInput::read_binary(&mut i).unwrap() }}"
        yield f"{kind}/read_string", TEXT, f"{{ {m} CompactThriftInput::read_string(&mut i).unwrap() }}"
        for t in ("Cow<[u8]>", "Cow<str>", "Option<Cow<str>>", "Box<Cow<[u8]>>", "Rc<Cow<str>>", "Arc<Cow<[u8]>>", "Mine", "Option<Box<Mine>>",
                  "String", "Vec<u8>", "Box<str>", "Rc<str>", "Arc<str>"):
            yield f"{kind}/{t}", TEXT, f"{{ {m} <{t}>::read_thrift(&mut i).unwrap() }}"
            yield f"{kind}/filled {t}", TEXT, f"{{ {m} let mut x = <{t}>::default(); x.fill_thrift_field(&mut i, 8).unwrap(); x }}"
        for t in ("Vec<Cow<str>>", "Vec<Cow<[u8]>>", "Vec<Mine>", "Option<Vec<Cow<str>>>", "Vec<String>"):
            yield f"{kind}/{t}", LIST, f"{{ {m} <{t}>::read_thrift(&mut i).unwrap() }}"
    yield "input/new", TEXT, "Later(CompactThriftInputSlice::new(bytes))"
    yield "input/from", TEXT, "Later(CompactThriftInputSlice::from(bytes))"
    yield "input/clone", TEXT, "Later(CompactThriftInputSlice::new(bytes).clone())"
    yield "input/as_slice", TEXT, "CompactThriftInputSlice::new(bytes).as_slice()"
    yield "input/rest", TEXT, "{ let mut i = CompactThriftInputSlice::new(bytes); i.read_byte().unwrap(); i.as_slice() }"
    yield "error/from data", "2, 0xff, 0xff", "CompactThriftInputSlice::new(bytes).read_string().unwrap_err()"
    yield "error/field", "0", "Plain::read_thrift(&mut CompactThriftInputSlice::new(bytes)).unwrap_err()"


LATER = """struct Later<'a>(CompactThriftInputSlice<'a>);
impl Debug for Later<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.clone().read_binary().unwrap().fmt(f) } }
"""


def programs():
    """name, the program, its control"""
    for name, data, how in routes():
        def p(owner, rest):
            return f"{LATER} pub fn main() {{ {rest.replace('OWNER', owner).replace('READ', '{ let bytes: &[u8] = &data; ' + how + ' }')} }}"
        for kind, owner in (("array", f"[{data}]"), ("vec", f"vec![{data}]"), ("shared", f"Rc::<[u8]>::from(vec![{data}])")):
            control = p(owner, "let data = OWNER; let x = READ; show(&x);")
            yield f"{name}/{kind}/out of scope", p(owner, "let x; { let data = OWNER; x = READ; } show(&x);"), control
            if kind != "shared":
                yield f"{name}/{kind}/overwritten", p(owner, "let mut data = OWNER; let x = READ; data.iter_mut().for_each(|b| *b = 1); show(&x);"), control
            if kind == "vec":
                yield f"{name}/{kind}/released", p(owner, "let data = OWNER; let x = READ; drop(data); show(&x);"), control
                yield f"{name}/{kind}/grown", p(owner, "let mut data = OWNER; let x = READ; data.extend([0; 100]); show(&x);"), control
                yield f"{name}/{kind}/in another thread", p(owner, "let data = OWNER; let x = READ; let t = std::thread::spawn(move || show(&x)); drop(data); t.join().unwrap();"), control
    # names of fields
    for name, made, text, static in (
            ("text", "FieldName::from(TEXT)", 'String::from("name\\0")', '"name\\0"'),
            ("into", "{ let n: FieldName = TEXT.into(); n }", 'String::from("name\\0")', '"name\\0"'),
            ("error", "ThriftError::MissingField(TEXT.into())", 'String::from("name\\0")', '"name\\0"'),
            ("C string", "FieldName::from(TEXT)", 'std::ffi::CString::new("name").unwrap()', 'c"name"'),
            ("C into", "ThriftError::MissingField(TEXT.into())", 'std::ffi::CString::new("name").unwrap()', 'c"name"')):
        ref = "data.as_str()" if "String::from" in text else "data.as_c_str()"
        control = f"pub fn main() {{ let x = {made.replace('TEXT', static)}; show(&x); }}"
        dyn = made.replace("TEXT", ref)
        yield f"name/{name}/out of scope", f"pub fn main() {{ let x; {{ let data = {text}; x = {dyn}; }} show(&x); }}", control
        yield f"name/{name}/released", f"pub fn main() {{ let data = {text}; let x = {dyn}; drop(data); show(&x); }}", control
        yield f"name/{name}/in another thread", f"pub fn main() {{ let data = {text}; let x = {dyn}; let t = std::thread::spawn(move || show(&x)); drop(data); t.join().unwrap(); }}", control
        st = made.replace("TEXT", static)
        yield f"name/{name}/static, in another thread", f"pub fn main() {{ let x = {st}; let y = x.clone(); let t = std::thread::spawn(move || show(&y.clone())); show(&x.clone()); t.join().unwrap(); }}", control
    # values that must stay in their thread, and ones that need not
    shared = 'Shared { a: Rc::new("a".into()), b: Some("b".into()) }'
    for name, v in (("Rc", "Rc::new(1)"), ("struct", shared), ("Box", f"Box::new({shared})"), ("list", f"vec![{shared}]"), ("union", 'Either::a(Rc::new("a".into()))'),
                    ("outer", f"Outer {{ a: Box::new({shared}), b: None, c: None }}"), ("outer with a union", f"Outer {{ a: Box::new({shared}), b: Some(vec![]), c: Some(Either::b(1)) }}"),
                    ("plain", 'Plain { a: Arc::new("a".into()), b: Some("b".into()), c: Some(vec![1]) }'), ("enum", "Number::ONE"), ("counted", "Counted::default()"),
                    ("Arc of counted", "Arc::new(Counted::default())"), ("Box of counted", "Box::new(Counted::default())"),
                    ("input", "CompactThriftInputSlice::new(&[1, b'a'])"), ("error", "ThriftError::InvalidNumber")):
        d = "" if name != "input" else LATER
        w = v if name != "input" else f"Later({v})"
        control = f"{d} pub fn main() {{ let x = {w}; show(&x); }}"
        clone = "let x = VALUE; let y = x.clone(); let t = std::thread::spawn(move || { let z = y.clone(); WRAP }); let z = x.clone(); WRAP; drop(x); t.join().unwrap();"
        wrap = "show(&z)" if name != "input" else "show(&Later(z))"
        yield f"thread/{name}/cloned", f"{d} pub fn main() {{ {clone.replace('VALUE', v).replace('WRAP', wrap)} }}", control
        use = "{ let mut o = vec![]; let _ = x.write_thrift(&mut o); black_box(&o); }" if name not in ("input", "error") else "{ let z = x.clone(); WRAP }".replace("WRAP", wrap)
        yield f"thread/{name}/shared", f"{d} pub fn main() {{ let x = {v}; std::thread::scope(|s| {{ s.spawn(|| {use}); {use} }}); }}", control
    # what is filled cannot be used at the same time
    yield "filled/while borrowed", "pub fn main() { let mut v = vec![String::from(\"a\")]; let r = &v[0]; v.fill_thrift(&mut CompactThriftInputSlice::new(&[0x08])).unwrap(); show(&r); }", "pub fn main() { let mut v = vec![String::from(\"a\")]; v.fill_thrift(&mut CompactThriftInputSlice::new(&[0x08])).unwrap(); show(&v); }"
    yield "filled/option", "pub fn main() { let mut v: Option<String> = None; let r = &v; v.fill_thrift(&mut CompactThriftInputSlice::new(&[1, b'a'])).unwrap(); show(&r); }", "pub fn main() { let mut v: Option<String> = None; v.fill_thrift(&mut CompactThriftInputSlice::new(&[1, b'a'])).unwrap(); show(&v); }"
    yield "sink/borrowed", "pub fn main() { let mut o: Vec<u8> = vec![]; let r = &o; 1i32.write_thrift(&mut o).unwrap(); show(&r); }", "pub fn main() { let mut o: Vec<u8> = vec![]; 1i32.write_thrift(&mut o).unwrap(); show(&o); }"


class Unavailable(Exception):
    pass


def module(k, text):
    return f"mod p{k} {{ use crate::common::*; use compact_thrift_runtime::*; use std::{{borrow::Cow, rc::Rc, sync::Arc, fmt::Debug, hint::black_box}};\n{text}\n}}\n"


def explore(repo, scratch, miri_env, undefined, workers=8):
    """(report, None or (program, what is undefined)). `undefined` finds the interpreter's complaint in its output."""
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch + "/run/src")
    lib = scratch + "/libcompact_thrift_runtime.rmeta"
    env = miri_env("")
    rustc = ["rustc", "--edition", "2021", "--emit=metadata"]
    r = subprocess.run(rustc + ["--crate-type", "rlib", "--crate-name", "compact_thrift_runtime", "-A", "warnings", repo + "/runtime/src/lib.rs", "-o", lib], env=env, capture_output=True, text=True)
    if r.returncode:
        raise Unavailable(r.stderr[-2000:])
    every = list(programs())

    def accepted(k, texts):
        src, out = f"{scratch}/p{k}.rs", f"{scratch}/libp{k}.rmeta"
        with open(src, "w") as f:
            f.write(PRELUDE + "mod common {\n" + COMMON + "}\n" + "".join(module(i, t) for i, t in texts))
        r = subprocess.run(rustc + ["--crate-type", "lib", "--crate-name", f"p{k}", "-A", "warnings", "--extern", "compact_thrift_runtime=" + lib, src, "-o", out],
                           env=env, capture_output=True, text=True)
        for p in (src, out):
            if os.path.exists(p):
                os.remove(p)
        return r.returncode == 0, sorted(set(re.findall(r"^error\[(E\d+)\]", r.stderr, re.M))), r.stderr

    controls = sorted({c for _, _, c in every})
    number = {c: i for i, c in enumerate(controls)}
    usable = set(range(len(controls)))
    if not accepted("controls", list(enumerate(controls)))[0]:
        with concurrent.futures.ThreadPoolExecutor(workers) as pool:
            usable = {i for i, a in enumerate(pool.map(lambda i: accepted(f"c{i}", [(i, controls[i])]), range(len(controls)))) if a[0]}
    todo = [(k, name, text) for k, (name, text, control) in enumerate(every) if number[control] in usable]
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        verdicts = list(pool.map(lambda x: accepted(x[0], [(x[0], x[2])]), todo))
    run = [t for t, v in zip(todo, verdicts) if v[0]]
    codes = {}
    for v in verdicts:
        for c in v[1]:
            codes[c] = codes.get(c, 0) + 1
    with open(scratch + "/run/Cargo.toml", "w") as f:
        f.write(f'[package]\nname = "escape"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\ncompact-thrift-runtime = {{ path = "{repo}/runtime" }}\n[workspace]\n')
    with open(scratch + "/run/src/main.rs", "w") as f:
        f.write(PRELUDE + "mod common {\n" + COMMON + "}\n" + "".join(module(k, t) for k, _, t in run))
        f.write("fn main() { let only: Option<usize> = std::env::args().nth(1).map(|a| a.parse().unwrap());\n")
        for k, _, _ in run:
            f.write(f'if only.is_none_or(|o| o == {k}) {{ println!("PROGRAM {k}"); p{k}::main(); }}\n')
        f.write('println!("ALL"); }\n')

    def interpret(flags, args):
        e = miri_env(flags)
        e["CARGO_TARGET_DIR"] = scratch + "/target"
        return subprocess.run(["cargo", "miri", "run", "--offline", "-q", "--manifest-path", scratch + "/run/Cargo.toml", "--"] + args, env=e,
                              stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=400)

    bad = None
    r = interpret("", [])
    if r.returncode or not r.stdout.endswith("ALL\n"):
        # each by itself; what only one model of aliasing rejects does not count
        for k, name, text in run:
            r = interpret("", [str(k)])
            what = undefined(r.stderr)
            if r.returncode == 0:
                continue
            if not what:
                raise Unavailable(f"{name}: {r.stderr[-1500:]}")
            if undefined(interpret("-Zmiri-tree-borrows", [str(k)]).stderr):
                bad = name, what + "\n" + text
                break
    report = {"programs": len(todo), "without a control": len(every) - len(todo), "refused": len(todo) - len(run), "executed": len(run), "reasons": codes}
    shutil.rmtree(scratch, ignore_errors=True)
    return report, bad
