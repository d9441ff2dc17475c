//! The subjects of the runtime checks: the types supported directly, and the definitions in defs.rs.
use crate::defs::*;
use crate::subject::*;
use mc::ty::{Idl, Ty, M};
use std::borrow::Cow;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub struct Env {
    pub idl: Idl,
    pub all: Vec<Vt>,
}

pub fn env() -> &'static Env {
    static E: OnceLock<Env> = OnceLock::new();
    E.get_or_init(|| {
        let idl = Idl::parse(IDL);
        let mut all = vec![
            vt::<bool>("bool", Ty::Bool, "scalar"),
            vt::<i8>("i8", Ty::I8, "scalar"),
            vt::<i16>("i16", Ty::I16, "scalar"),
            vt::<i32>("i32", Ty::I32, "scalar"),
            vt::<i64>("i64", Ty::I64, "scalar"),
            vt::<f64>("f64", Ty::F64, "scalar"),
            vt::<Vec<u8>>("Vec<u8>", Ty::Bin, "text"),
            vt::<String>("String", Ty::Str, "text"),
            vt_cow_bytes("Cow<[u8]>", Ty::Bin, "text"),
            vt_cow_str("Cow<str>", Ty::Str, "text"),
            vt::<Box<str>>("Box<str>", Ty::Str, "text"),
            vt::<Rc<str>>("Rc<str>", Ty::Str, "text"),
            vt::<Arc<str>>("Arc<str>", Ty::Str, "text"),
        ];
        let l = Ty::list;
        let d = |n: &str| idl.def(n);
        all.extend([
            vt::<Vec<bool>>("Vec<bool>", l(Ty::Bool), "list"),
            vt::<Vec<i8>>("Vec<i8>", l(Ty::I8), "list"),
            vt::<Vec<i16>>("Vec<i16>", l(Ty::I16), "list"),
            vt::<Vec<i32>>("Vec<i32>", l(Ty::I32), "list"),
            vt::<Vec<i64>>("Vec<i64>", l(Ty::I64), "list"),
            vt::<Vec<f64>>("Vec<f64>", l(Ty::F64), "list"),
            vt::<Vec<String>>("Vec<String>", l(Ty::Str), "list"),
            vt::<Vec<Vec<u8>>>("Vec<Vec<u8>>", l(Ty::Bin), "list"),
            vt::<Vec<Vec<i32>>>("Vec<Vec<i32>>", l(l(Ty::I32)), "list"),
            vt::<Vec<Vec<bool>>>("Vec<Vec<bool>>", l(l(Ty::Bool)), "list"),
            vt::<Vec<Vec<Vec<i64>>>>("Vec<Vec<Vec<i64>>>", l(l(l(Ty::I64))), "list"),
            vt::<Vec<Small>>("Vec<Small>", l(d("Small")), "list"),
            vt::<Vec<Choice>>("Vec<Choice>", l(d("Choice")), "list"),
            vt::<Vec<Color>>("Vec<Color>", l(d("Color")), "list"),
            vt::<Vec<Empty>>("Vec<Empty>", l(d("Empty")), "list"),
            vt::<Vec<Box<bool>>>("Vec<Box<bool>>", l(Ty::Bool), "list"),
            vt::<Vec<Arc<bool>>>("Vec<Arc<bool>>", l(Ty::Bool), "list"),
            vt::<Vec<Rc<Small>>>("Vec<Rc<Small>>", l(d("Small")), "list"),
            vt::<Vec<Arc<str>>>("Vec<Arc<str>>", l(Ty::Str), "list"),
            vt::<Vec<Box<str>>>("Vec<Box<str>>", l(Ty::Str), "list"),
            vt::<Vec<Rc<String>>>("Vec<Rc<String>>", l(Ty::Str), "list"),
            vt::<Vec<Option<i32>>>("Vec<Option<i32>>", l(Ty::I32), "list"),
            vt::<Vec<HugeElement>>("Vec<HugeElement>", l(d("HugeElement")), "list"),
            vt::<Option<bool>>("Option<bool>", Ty::Bool, "wrap").opt(),
            vt::<Option<i32>>("Option<i32>", Ty::I32, "wrap").opt(),
            vt::<Option<f64>>("Option<f64>", Ty::F64, "wrap").opt(),
            vt::<Option<String>>("Option<String>", Ty::Str, "wrap").opt(),
            vt::<Option<Vec<bool>>>("Option<Vec<bool>>", l(Ty::Bool), "wrap").opt(),
            vt::<Option<Small>>("Option<Small>", d("Small"), "wrap").opt(),
            vt::<Option<Box<Choice>>>("Option<Box<Choice>>", d("Choice"), "wrap").opt(),
            vt::<Option<Box<bool>>>("Option<Box<bool>>", Ty::Bool, "wrap").opt(),
            vt::<Box<bool>>("Box<bool>", Ty::Bool, "wrap"),
            vt::<Rc<bool>>("Rc<bool>", Ty::Bool, "wrap"),
            vt::<Arc<bool>>("Arc<bool>", Ty::Bool, "wrap"),
            vt::<Box<i32>>("Box<i32>", Ty::I32, "wrap"),
            vt::<Rc<i64>>("Rc<i64>", Ty::I64, "wrap"),
            vt::<Arc<i16>>("Arc<i16>", Ty::I16, "wrap"),
            vt::<Box<String>>("Box<String>", Ty::Str, "wrap"),
            vt::<Rc<Vec<u8>>>("Rc<Vec<u8>>", Ty::Bin, "wrap"),
            vt::<Box<Vec<bool>>>("Box<Vec<bool>>", l(Ty::Bool), "wrap"),
            vt::<Box<Small>>("Box<Small>", d("Small"), "wrap"),
            vt::<Rc<Choice>>("Rc<Choice>", d("Choice"), "wrap"),
            vt::<Arc<AllOpt>>("Arc<AllOpt>", d("AllOpt"), "wrap"),
            vt::<Box<Rc<Arc<i32>>>>("Box<Rc<Arc<i32>>>", Ty::I32, "wrap"),
            vt::<Box<Option<i32>>>("Box<Option<i32>>", Ty::I32, "wrap").opt(),
        ]);
        all.extend(subjects(&idl));
        Env { idl, all }
    })
}

/// Every subject but the definitions with sets (a listed finding; they have jobs of their own).
pub fn plain() -> impl Iterator<Item = &'static Vt> {
    env().all.iter().filter(|v| v.group != "set")
}
pub fn sets() -> impl Iterator<Item = &'static Vt> {
    env().all.iter().filter(|v| v.group == "set")
}
pub fn named(names: &[&str]) -> Vec<&'static Vt> {
    names.iter().map(|n| env().all.iter().find(|v| v.name == *n).unwrap_or_else(|| panic!("no subject {n}"))).collect()
}
/// A small selection covering every kind of type.
pub fn rep() -> Vec<&'static Vt> {
    named(&[
        "bool", "i8", "i16", "i32", "i64", "f64", "Vec<u8>", "String", "Cow<str>", "Vec<bool>", "Vec<i32>", "Vec<String>",
        "Vec<Small>", "Vec<Vec<i32>>", "Option<Small>", "Empty", "Small", "Choice", "OneFlag", "Mixed", "ReqThree", "Lay1x", "Lay6x", "WrapOpt", "AllOpt",
    ])
}
pub fn is_struct(v: &Vt) -> bool {
    matches!(v.ty, Ty::Struct(_) | Ty::Union(_))
}
#[allow(dead_code)]
pub fn cow(m: &M) -> Cow<'static, str> {
    conv(m)
}
