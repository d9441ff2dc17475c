//! R23: every way of writing a definition gives the type the definition says. That the definitions in sy_defs.rs
//! compile is a part of it.
#[path = "../../kit.rs"]
mod kit;
#[path = "../../subject.rs"]
mod subject;
mod sy_defs;

use kit::*;
use mc::cli::Plan;
use mc::explore::{Ctx, Job};
use mc::gen::nth;
use mc::hex;
use mc::ty::{encode, Idl, Ty, M};
use std::sync::OnceLock;
use subject::*;

#[global_allocator]
static ALLOC: mc::alloc::Tracking = mc::alloc::Tracking;

fn all() -> &'static [Vt] {
    static ALL: OnceLock<Vec<Vt>> = OnceLock::new();
    ALL.get_or_init(|| sy_defs::subjects(&Idl::parse(sy_defs::IDL)))
}

fn basics(c: &mut Ctx, v: &Vt) {
    c.compared(1);
    let d = v.default();
    c.check(d.as_ref() == Ok(&v.ty.default()), || format!("{}: the default is {}, expected {}", v.name, brief(&d), brief(&v.ty.default())));
    c.state(v.name.as_bytes());
    if let Ty::Struct(def) = &v.ty {
        // nothing sent: the first required field is missed, or there is none
        let want = match def.fields.iter().find(|f| f.required) {
            Some(f) => Err(Er::Missing(format!("{}::{}", def.name, f.name))),
            None => Ok(v.ty.default()),
        };
        for (src, r, _) in both(v, &[0]) {
            c.compared(1);
            c.check(r == want, || format!("{}: no fields read from a {src} give {}, expected {}", v.name, brief(&r), brief(&want)));
        }
        // each field alone left out, and each field alone sent twice
        let M::Struct(all) = nth(&v.ty, 1) else { return };
        for (i, f) in def.fields.iter().enumerate() {
            let mut m = all.clone();
            m[i] = M::None;
            let mut w = vec![];
            for (k, (g, x)) in def.fields.iter().zip(&m).enumerate() {
                if k != i {
                    w.push((g.id, mc::ty::to_w(&g.ty, x)));
                }
            }
            let b = mc::wire::canon(&mc::wire::W::Struct(w.clone()));
            let want = if f.required { Err(Er::Missing(format!("{}::{}", def.name, f.name))) } else { Ok(M::Struct(m)) };
            for (src, r, _) in both(v, &b) {
                c.compared(1);
                c.check(r == want, || format!("{}: {} without field {} read from a {src} is {}, expected {}", v.name, hex(&b), f.id, brief(&r), brief(&want)));
            }
            if !f.required {
                let x = mc::ty::to_w(&f.ty, &all[i]);
                let b = mc::wire::canon(&mc::wire::W::Struct(vec![(f.id, x.clone()), (f.id, x)]));
                for (src, r, _) in both(v, &b) {
                    c.compared(1);
                    c.check(r == Err(Er::Dup), || format!("{}: {}, field {} twice, read from a {src} is {}", v.name, hex(&b), f.id, brief(&r)));
                }
            }
        }
    }
    if let Ty::Union(def) = &v.ty {
        for (i, f) in def.fields.iter().enumerate() {
            let m = M::Union(i, Box::new(nth(&f.ty, 2)));
            accepts(c, v, &m, &encode(&v.ty, &m));
        }
    }
    c.outcome("the type the definition says");
}

fn r23(th: bool) -> Plan<'static> {
    let mut jobs = vec![];
    jobs.push(Job::new("constants", 0, |c| {
        let all = sy_defs::constants();
        let (n, got, want) = *c.pick(&all);
        c.state(n.as_bytes());
        c.compared(1);
        c.check(got == want, || format!("{n} is {got}, the definition says {want}"));
        c.outcome("constants");
    }));
    for v in all() {
        jobs.push(Job::new(format!("basics/{}", v.name), 0, |c| basics(c, v)));
        if matches!(&v.ty, Ty::Struct(d) if d.fields.is_empty()) {
            continue;
        }
        for sparse in bases(&v.ty) {
            let k = bound(&v.ty, 0.0, if th { 300_000.0 } else { 20_000.0 }, if th { 3 } else { 2 });
            jobs.push(Job::new(format!("values/{}/{sparse}", v.name), k, move |c| {
                let m = value(c, &v.ty, *sparse);
                conforms(c, v, &m);
                round_trip(c, v, &m);
            }));
            let k = if th { 2 } else { 1 };
            jobs.push(Job::new(format!("forms/{}/{sparse}", v.name), k, move |c| {
                let m = if *sparse { v.ty.default() } else { nth(&v.ty, 0) };
                let w = mc::ty::to_w(&v.ty, &m);
                let mut b = vec![];
                mc::wire::encode(&w, true, &mut AnyForm { c }, &mut b);
                accepts(c, v, &m, &b);
            }));
        }
    }
    Plan::new(jobs, &[
        "definitions: every combination of 6 comment forms, required or optional, 6 defaults and 2 separators for fields of 3 types; of 2 comment forms, required or optional, with and without a default, and 2 separators for all 42 field types; all neighbouring pairs of field endings and beginnings; all types and separators as union members; all comment forms on enum constants with 8 values; 52 field and member names, 11 type names; every kind of definition after every kind with every comment between; up to 100 definitions in a call; the empty call",
        "for each: it compiles; its default; every field left out or sent twice; values within one deviation (two where at most 20000 follow, thorough three where at most 300000 do) of both bases written, compared with the protocol and read back; two values in every encoding form within one (thorough two) deviations",
    ])
}

fn main() {
    mc::cli::main(
        |p, th| {
            Some(match p {
                "R23" => r23(th),
                _ => return None,
            })
        },
        |_| 2,
    )
}
