//! R19 for reference-counted values: what other holders of a handle see.
use crate::defs::*;
use crate::env::env;
use crate::subject::*;
use compact_thrift_runtime::{CompactThriftInputSlice, CompactThriftProtocol};
use mc::explore::{guard, Ctx};
use mc::gen::{nth, scalars};
use mc::ty::{encode, Ty, M};
use std::rc::Rc;
use std::sync::Arc;

/// Fills one handle of a value that `others` further handles share.
fn case<H: Clone + Subject + for<'i> CompactThriftProtocol<'i>>(c: &mut Ctx, name: &str, ty: &Ty, unsized_text: bool) {
    let others = c.choose(3);
    let as_field = c.choose(2) == 1;
    let vals = {
        let s = scalars(ty);
        if s.is_empty() {
            vec![nth(ty, 1), nth(ty, 2)]
        } else {
            s
        }
    };
    let old = vals[c.choose(vals.len())].clone();
    let new = vals[c.choose(vals.len())].clone();
    let mut b = encode(ty, &new);
    let t = match (&new, as_field) {
        (M::Bool(x), true) => {
            b.clear();
            if *x {
                1
            } else {
                2
            }
        }
        _ => ty.wire(),
    };
    let mut h: H = conv(&old);
    let held: Vec<H> = (0..others).map(|_| h.clone()).collect();
    let r = guard(|| {
        let mut i = CompactThriftInputSlice::new(&b);
        let r = if as_field { h.fill_thrift_field(&mut i, t) } else { h.fill_thrift(&mut i) };
        r.map_err(Er::from)
    });
    c.compared(1);
    c.state(format!("{name} {others} {as_field} {old:?} {new:?}").as_bytes());
    let seen: Vec<M> = held.iter().map(|x| x.to_m()).collect();
    if seen.iter().any(|x| *x != old) {
        c.fail(format!("{name}: filling one of {} handles of {old:?} from {new:?} shows {seen:?} to the others", others + 1));
    }
    let after = h.to_m();
    let ok = if others == 0 || unsized_text {
        // a handle of unsized text is replaced as a whole, which the others cannot observe; refusing is fine as well
        (r == Ok(Ok(())) && after == new) || (others > 0 && r == Ok(Err(Er::Dup)) && after == old)
    } else {
        r == Ok(Err(Er::Dup)) && after == old
    };
    if !ok {
        c.fail(format!("{name}: filling a handle of {old:?} that {others} others share from {new:?} gives {r:?} and {after:?}"));
    }
    c.outcome(if others == 0 { "sole handle filled" } else { "shared handle" });
}

fn weak(c: &mut Ctx) {
    // weak handles count as handles too: the value they would upgrade to must not change under them
    let mut h: Rc<i32> = Rc::new(1);
    let w = Rc::downgrade(&h);
    let r = h.fill_thrift(&mut CompactThriftInputSlice::new(&[0x04])).map_err(Er::from);
    let seen = w.upgrade().map(|x| *x);
    c.compared(1);
    let ok = match r {
        Ok(()) => *h == 2 && (seen == Some(2) || seen.is_none()),
        Err(_) => *h == 1 && seen == Some(1),
    };
    c.check(ok, || format!("Rc<i32> with a weak handle: {r:?}, now {h}, weak sees {seen:?}"));
    c.outcome("weak handle");
}

pub fn shared(c: &mut Ctx) {
    let idl = &env().idl;
    let l = |t| Ty::list(t);
    match c.choose(17) {
        0 => case::<Rc<i32>>(c, "Rc<i32>", &Ty::I32, false),
        1 => case::<Arc<i32>>(c, "Arc<i32>", &Ty::I32, false),
        2 => case::<Rc<bool>>(c, "Rc<bool>", &Ty::Bool, false),
        3 => case::<Arc<bool>>(c, "Arc<bool>", &Ty::Bool, false),
        4 => case::<Rc<String>>(c, "Rc<String>", &Ty::Str, false),
        5 => case::<Arc<String>>(c, "Arc<String>", &Ty::Str, false),
        6 => case::<Rc<Vec<u8>>>(c, "Rc<Vec<u8>>", &Ty::Bin, false),
        7 => case::<Rc<Vec<i32>>>(c, "Rc<Vec<i32>>", &l(Ty::I32), false),
        8 => case::<Arc<Vec<bool>>>(c, "Arc<Vec<bool>>", &l(Ty::Bool), false),
        9 => case::<Rc<Choice>>(c, "Rc<Choice>", &idl.def("Choice"), false),
        10 => case::<Arc<Choice>>(c, "Arc<Choice>", &idl.def("Choice"), false),
        11 => case::<Rc<f64>>(c, "Rc<f64>", &Ty::F64, false),
        12 => case::<Rc<str>>(c, "Rc<str>", &Ty::Str, true),
        13 => case::<Arc<str>>(c, "Arc<str>", &Ty::Str, true),
        14 => case::<Box<i64>>(c, "Box<i64>", &Ty::I64, true),
        15 => case::<Arc<Box<i64>>>(c, "Arc<Box<i64>>", &Ty::I64, false),
        _ => weak(c),
    }
}
