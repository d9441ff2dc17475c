// @generated by tools/gen_pr_defs.py
#![allow(non_snake_case, clippy::all)]
use crate::subject::*;
use mc::ty::M;

compact_thrift_runtime::thrift! {
    enum Tint { PALE = 0; DARK = 3; }
    struct Nil {}
    struct Pair { 1: required i32 a; 2: optional string b; }
    union Either { 1: i64 number; 2: string text; 3: bool flag; 4: Pair pair; 20: list<double> reals; 5: Nil nothing; }
    struct Every {
      1: required bool flag;
      2: optional i8 tiny;
      3: required i16 short;
      4: optional i32 medium;
      5: required i64 long;
      6: optional double real;
      7: required string text;
      8: optional binary raw;
      30: required Tint tint;
      9: optional Pair pair;
      10: required list<i32> ints;
      11: optional list<bool> flags;
      12: required list<string> texts;
      13: optional list<Pair> pairs;
      14: required Either either;
      16: optional Rc<str> shared;
      17: optional Box<Nil> boxed;
      18: optional list<double> reals;
    }
    struct Later { 1: required i32 a; 9: optional bool last; }
}
pub const IDL: &str = r##"
    enum Tint { PALE = 0; DARK = 3; }
    struct Nil {}
    struct Pair { 1: required i32 a; 2: optional string b; }
    union Either { 1: i64 number; 2: string text; 3: bool flag; 4: Pair pair; 20: list<double> reals; 5: Nil nothing; }
    struct Every {
      1: required bool flag;
      2: optional i8 tiny;
      3: required i16 short;
      4: optional i32 medium;
      5: required i64 long;
      6: optional double real;
      7: required string text;
      8: optional binary raw;
      30: required Tint tint;
      9: optional Pair pair;
      10: required list<i32> ints;
      11: optional list<bool> flags;
      12: required list<string> texts;
      13: optional list<Pair> pairs;
      14: required Either either;
      16: optional Rc<str> shared;
      17: optional Box<Nil> boxed;
      18: optional list<double> reals;
    }
    struct Later { 1: required i32 a; 9: optional bool last; }
"##;
impl Subject for Tint { fn from_m(m: &M) -> Self { if let M::I32(x) = m { Tint(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for Nil {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    Nil {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for Pair {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Pair { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
impl Subject for Either {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Either::number(conv(x)),
      M::Union(1, x) => Either::text(conv(x)),
      M::Union(2, x) => Either::flag(conv(x)),
      M::Union(3, x) => Either::pair(conv(x)),
      M::Union(4, x) => Either::reals(conv(x)),
      M::Union(5, x) => Either::nothing(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Either::number(x) => M::Union(0, Box::new(x.to_m())),
      Either::text(x) => M::Union(1, Box::new(x.to_m())),
      Either::flag(x) => M::Union(2, Box::new(x.to_m())),
      Either::pair(x) => M::Union(3, Box::new(x.to_m())),
      Either::reals(x) => M::Union(4, Box::new(x.to_m())),
      Either::nothing(x) => M::Union(5, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for Every {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Every { flag: conv(&f[0]), tiny: conv(&f[1]), short: conv(&f[2]), medium: conv(&f[3]), long: conv(&f[4]), real: conv(&f[5]), text: conv(&f[6]), raw: conv(&f[7]), tint: conv(&f[8]), pair: conv(&f[9]), ints: conv(&f[10]), flags: conv(&f[11]), texts: conv(&f[12]), pairs: conv(&f[13]), either: conv(&f[14]), shared: conv(&f[15]), boxed: conv(&f[16]), reals: conv(&f[17]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.flag.to_m(), self.tiny.to_m(), self.short.to_m(), self.medium.to_m(), self.long.to_m(), self.real.to_m(), self.text.to_m(), self.raw.to_m(), self.tint.to_m(), self.pair.to_m(), self.ints.to_m(), self.flags.to_m(), self.texts.to_m(), self.pairs.to_m(), self.either.to_m(), self.shared.to_m(), self.boxed.to_m(), self.reals.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Later {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Later { a: conv(&f[0]), last: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.last.to_m()]) }
}
