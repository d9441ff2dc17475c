// @generated by tools/gen_rt_defs.py
#![allow(non_snake_case, clippy::all)]
use crate::subject::*;
use mc::ty::{Idl, M};

compact_thrift_runtime::thrift! {
    namespace rust test
    /// enum doc
    enum Color { RED = 0; GREEN = 1; /** documented */ BLUE = 7; BIG = 2147483647; NEG = -5; }
    enum Zero { ONLY = 3; }
    struct Empty {}
    struct Small { 1: required i32 a; 2: optional string b; }
    union Choice {
      /** doc */
      1: i32 number
      2: string text;
      3: bool flag
      4: Small small;
      5: double real;
      20: list<i32> many;
      21: Empty nothing
      -3: binary raw;
      300: i64 big;
      22: list<bool> flags;
      23: Color color;
      24: i8 tiny
      25: i16 short;
    }
    union OneFlag { 1: bool only; }
    union Late { 5: Empty first; 1: i64 second; }
    struct AllReq {
      1: required bool flag;
      2: required i8 tiny
      3: required i16 short
      4: required i32 medium = 5;
      5: required i64 long
      6: required double real;
      7: required string text;
      8: required binary raw;
      9: required Color color;
      10: required Small small;
      11: required list<i32> ints;
      12: required list<bool> flags;
      13: required list<string> texts;
      14: required list<binary> raws;
      15: required list<Small> smalls;
      16: required Choice choice;
      17: required list<double> reals;
      18: required list<Color> colors;
      19: required list<Choice> choices
      20: required list<i8> tinies;
      21: required list<i64> longs;
      22: required list<i16> shorts;
    }
    /** a struct
     *  of optional fields */
    struct AllOpt {
      1: optional bool flag;
      2: optional i8 tiny
      3: optional i16 short
      4: optional i32 medium
      5: optional i64 long
      6: optional double real;
      7: optional string text = "none";
      8: optional binary raw;
      9: optional Color color;
      10: optional Small small;
      11: optional list<i32> ints;
      12: optional list<bool> flags;
      13: optional list<string> texts;
      14: optional list<binary> raws;
      15: optional list<Small> smalls;
      16: optional Choice choice;
      17: optional list<double> reals;
      18: optional list<Color> colors;
      19: optional bool last = true;
    }
    struct WrapReq {
      1: required Box<bool> box_flag;
      2: required Rc<bool> rc_flag
      3: required Arc<bool> arc_flag
      4: required Box<i32> box_int;
      5: required Rc<string> rc_string;
      6: required Arc<String> arc_string;
      7: required Box<str> box_str;
      8: required Rc<str> rc_str;
      9: required Arc<str> arc_str;
      10: required Box<Small> box_small;
      11: required Rc<Small> rc_small;
      12: required Arc<Choice> arc_choice;
      13: required Box<double> box_real;
      14: required Box<Color> box_color;
      15: required Box<binary> box_raw;
    }
    struct WrapOpt {
      1: optional Box<bool> box_flag;
      2: optional Rc<bool> rc_flag
      3: optional Arc<bool> arc_flag
      4: optional Box<i32> box_int;
      5: optional Rc<string> rc_string;
      7: optional Box<str> box_str;
      8: optional Rc<str> rc_str;
      9: optional Arc<str> arc_str;
      10: optional Box<Small> box_small;
      11: optional Rc<Small> rc_small;
      12: optional Arc<Choice> arc_choice;
    }
    struct Bytes {
      1: required byte one;
      2: optional byte maybe;
      3: required list<byte> list_of;
    }
    struct Nested {
      1: required Small first;
      2: optional Nested2 second;
      3: required list<Nested2> rest;
      4: optional bool flag;
    }
    struct Nested2 {
      1: optional Empty e;
      2: required Choice c;
      3: optional AllOpt opts;
    }
    /// presence in all combinations
    struct Mixed {
      1: required i32 a;
      2: optional i32 b;
      3: required bool c;
      4: optional string d;
    }
    struct ReqThree {
      7: required Small z;
      3: required list<i32> y;
      5: required bool x;
    }
    struct Names {
      1: required i32 last_field_id;
      2: optional i32 input;
      3: required bool field_type;
      4: required i32 output;
      5: optional i32 result;
      6: required i32 stop;
      7: optional string inner;
    }
    struct HugeElement {
      1: required i64 a1; 2: required i64 a2; 3: required i64 a3; 4: required i64 a4;
      5: required string s1; 6: required string s2; 7: required string s3; 8: required string s4;
    }
}
impl Subject for Color { fn from_m(m: &M) -> Self { if let M::I32(x) = m { Color(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for Zero { fn from_m(m: &M) -> Self { if let M::I32(x) = m { Zero(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for Empty {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    Empty {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for Small {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Small { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
impl Subject for Choice {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Choice::number(conv(x)),
      M::Union(1, x) => Choice::text(conv(x)),
      M::Union(2, x) => Choice::flag(conv(x)),
      M::Union(3, x) => Choice::small(conv(x)),
      M::Union(4, x) => Choice::real(conv(x)),
      M::Union(5, x) => Choice::many(conv(x)),
      M::Union(6, x) => Choice::nothing(conv(x)),
      M::Union(7, x) => Choice::raw(conv(x)),
      M::Union(8, x) => Choice::big(conv(x)),
      M::Union(9, x) => Choice::flags(conv(x)),
      M::Union(10, x) => Choice::color(conv(x)),
      M::Union(11, x) => Choice::tiny(conv(x)),
      M::Union(12, x) => Choice::short(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Choice::number(x) => M::Union(0, Box::new(x.to_m())),
      Choice::text(x) => M::Union(1, Box::new(x.to_m())),
      Choice::flag(x) => M::Union(2, Box::new(x.to_m())),
      Choice::small(x) => M::Union(3, Box::new(x.to_m())),
      Choice::real(x) => M::Union(4, Box::new(x.to_m())),
      Choice::many(x) => M::Union(5, Box::new(x.to_m())),
      Choice::nothing(x) => M::Union(6, Box::new(x.to_m())),
      Choice::raw(x) => M::Union(7, Box::new(x.to_m())),
      Choice::big(x) => M::Union(8, Box::new(x.to_m())),
      Choice::flags(x) => M::Union(9, Box::new(x.to_m())),
      Choice::color(x) => M::Union(10, Box::new(x.to_m())),
      Choice::tiny(x) => M::Union(11, Box::new(x.to_m())),
      Choice::short(x) => M::Union(12, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for OneFlag {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => OneFlag::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      OneFlag::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Late {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Late::first(conv(x)),
      M::Union(1, x) => Late::second(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Late::first(x) => M::Union(0, Box::new(x.to_m())),
      Late::second(x) => M::Union(1, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for AllReq {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    AllReq { flag: conv(&f[0]), tiny: conv(&f[1]), short: conv(&f[2]), medium: conv(&f[3]), long: conv(&f[4]), real: conv(&f[5]), text: conv(&f[6]), raw: conv(&f[7]), color: conv(&f[8]), small: conv(&f[9]), ints: conv(&f[10]), flags: conv(&f[11]), texts: conv(&f[12]), raws: conv(&f[13]), smalls: conv(&f[14]), choice: conv(&f[15]), reals: conv(&f[16]), colors: conv(&f[17]), choices: conv(&f[18]), tinies: conv(&f[19]), longs: conv(&f[20]), shorts: conv(&f[21]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.flag.to_m(), self.tiny.to_m(), self.short.to_m(), self.medium.to_m(), self.long.to_m(), self.real.to_m(), self.text.to_m(), self.raw.to_m(), self.color.to_m(), self.small.to_m(), self.ints.to_m(), self.flags.to_m(), self.texts.to_m(), self.raws.to_m(), self.smalls.to_m(), self.choice.to_m(), self.reals.to_m(), self.colors.to_m(), self.choices.to_m(), self.tinies.to_m(), self.longs.to_m(), self.shorts.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for AllOpt {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    AllOpt { flag: conv(&f[0]), tiny: conv(&f[1]), short: conv(&f[2]), medium: conv(&f[3]), long: conv(&f[4]), real: conv(&f[5]), text: conv(&f[6]), raw: conv(&f[7]), color: conv(&f[8]), small: conv(&f[9]), ints: conv(&f[10]), flags: conv(&f[11]), texts: conv(&f[12]), raws: conv(&f[13]), smalls: conv(&f[14]), choice: conv(&f[15]), reals: conv(&f[16]), colors: conv(&f[17]), last: conv(&f[18]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.flag.to_m(), self.tiny.to_m(), self.short.to_m(), self.medium.to_m(), self.long.to_m(), self.real.to_m(), self.text.to_m(), self.raw.to_m(), self.color.to_m(), self.small.to_m(), self.ints.to_m(), self.flags.to_m(), self.texts.to_m(), self.raws.to_m(), self.smalls.to_m(), self.choice.to_m(), self.reals.to_m(), self.colors.to_m(), self.last.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for WrapReq {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    WrapReq { box_flag: conv(&f[0]), rc_flag: conv(&f[1]), arc_flag: conv(&f[2]), box_int: conv(&f[3]), rc_string: conv(&f[4]), arc_string: conv(&f[5]), box_str: conv(&f[6]), rc_str: conv(&f[7]), arc_str: conv(&f[8]), box_small: conv(&f[9]), rc_small: conv(&f[10]), arc_choice: conv(&f[11]), box_real: conv(&f[12]), box_color: conv(&f[13]), box_raw: conv(&f[14]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.box_flag.to_m(), self.rc_flag.to_m(), self.arc_flag.to_m(), self.box_int.to_m(), self.rc_string.to_m(), self.arc_string.to_m(), self.box_str.to_m(), self.rc_str.to_m(), self.arc_str.to_m(), self.box_small.to_m(), self.rc_small.to_m(), self.arc_choice.to_m(), self.box_real.to_m(), self.box_color.to_m(), self.box_raw.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for WrapOpt {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    WrapOpt { box_flag: conv(&f[0]), rc_flag: conv(&f[1]), arc_flag: conv(&f[2]), box_int: conv(&f[3]), rc_string: conv(&f[4]), box_str: conv(&f[5]), rc_str: conv(&f[6]), arc_str: conv(&f[7]), box_small: conv(&f[8]), rc_small: conv(&f[9]), arc_choice: conv(&f[10]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.box_flag.to_m(), self.rc_flag.to_m(), self.arc_flag.to_m(), self.box_int.to_m(), self.rc_string.to_m(), self.box_str.to_m(), self.rc_str.to_m(), self.arc_str.to_m(), self.box_small.to_m(), self.rc_small.to_m(), self.arc_choice.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Bytes {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Bytes { one: conv(&f[0]), maybe: conv(&f[1]), list_of: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.one.to_m(), self.maybe.to_m(), self.list_of.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Nested {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Nested { first: conv(&f[0]), second: conv(&f[1]), rest: conv(&f[2]), flag: conv(&f[3]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.first.to_m(), self.second.to_m(), self.rest.to_m(), self.flag.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Nested2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Nested2 { e: conv(&f[0]), c: conv(&f[1]), opts: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.e.to_m(), self.c.to_m(), self.opts.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Mixed {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Mixed { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), d: conv(&f[3]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m(), self.d.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for ReqThree {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    ReqThree { z: conv(&f[0]), y: conv(&f[1]), x: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.z.to_m(), self.y.to_m(), self.x.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Names {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Names { last_field_id: conv(&f[0]), input: conv(&f[1]), field_type: conv(&f[2]), output: conv(&f[3]), result: conv(&f[4]), stop: conv(&f[5]), inner: conv(&f[6]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.last_field_id.to_m(), self.input.to_m(), self.field_type.to_m(), self.output.to_m(), self.result.to_m(), self.stop.to_m(), self.inner.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for HugeElement {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    HugeElement { a1: conv(&f[0]), a2: conv(&f[1]), a3: conv(&f[2]), a4: conv(&f[3]), s1: conv(&f[4]), s2: conv(&f[5]), s3: conv(&f[6]), s4: conv(&f[7]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a1.to_m(), self.a2.to_m(), self.a3.to_m(), self.a4.to_m(), self.s1.to_m(), self.s2.to_m(), self.s3.to_m(), self.s4.to_m()]) }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    struct Lay0x { 1: required bool a; 2: optional i32 b; 3: required bool c }
    struct Lay0y { 1: optional list<bool> a; 2: required i64 b; 3: optional Small c }
    struct Lay1x { 1: required Small a; 16: optional bool b; 17: required list<i32> c }
    struct Lay1y { 1: required Color a; 16: required Choice b; 17: optional binary c }
    struct Lay2x { 1: required Box<bool> a; 17: optional Arc<bool> b; 33: required double c }
    struct Lay2y { 1: required bool a; 17: optional i32 b; 33: required bool c }
    struct Lay3x { 15: optional i8 a; 16: optional i16 b; 30: optional Rc<str> c }
    struct Lay3y { 15: required Small a; 16: optional bool b; 30: required list<i32> c }
    struct Lay4x { 16: optional bool a; 32: required string b; 48: optional bool c }
    struct Lay4y { 16: required Box<bool> a; 32: optional Arc<bool> b; 48: required double c }
    struct Lay5x { 14: optional list<bool> a; 29: required i64 b; 45: optional Small c }
    struct Lay5y { 14: optional i8 a; 29: optional i16 b; 45: optional Rc<str> c }
    struct Lay6x { 3: required Color a; 2: required Choice b; 1: optional binary c }
    struct Lay6y { 3: optional bool a; 2: required string b; 1: optional bool c }
    struct Lay7x { 17: required bool a; 1: optional i32 b; 2: required bool c }
    struct Lay7y { 17: optional list<bool> a; 1: required i64 b; 2: optional Small c }
    struct Lay8x { 100: required Small a; 1: optional bool b; 50: required list<i32> c }
    struct Lay8y { 100: required Color a; 1: required Choice b; 50: optional binary c }
    struct Lay9x { 0: required Box<bool> a; 1: optional Arc<bool> b; 2: required double c }
    struct Lay9y { 0: required bool a; 1: optional i32 b; 2: required bool c }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    struct Lay10x { 1: optional i8 a; 0: optional i16 b; 2: optional Rc<str> c }
    struct Lay10y { 1: required Small a; 0: optional bool b; 2: required list<i32> c }
    struct Lay11x { -1: optional bool a; 0: required string b; 1: optional bool c }
    struct Lay11y { -1: required Box<bool> a; 0: optional Arc<bool> b; 1: required double c }
    struct Lay12x { -1: optional list<bool> a; -2: required i64 b; -3: optional Small c }
    struct Lay12y { -1: optional i8 a; -2: optional i16 b; -3: optional Rc<str> c }
    struct Lay13x { -16: required Color a; -1: required Choice b; 14: optional binary c }
    struct Lay13y { -16: optional bool a; -1: required string b; 14: optional bool c }
    struct Lay14x { -32768: required bool a; 32767: optional i32 b; 0: required bool c }
    struct Lay14y { -32768: optional list<bool> a; 32767: required i64 b; 0: optional Small c }
    struct Lay15x { 32767: required Small a; -32768: optional bool b; 1: required list<i32> c }
    struct Lay15y { 32767: required Color a; -32768: required Choice b; 1: optional binary c }
    struct Lay16x { 32752: required Box<bool> a; 32767: optional Arc<bool> b; 1: required double c }
    struct Lay16y { 32752: required bool a; 32767: optional i32 b; 1: required bool c }
    struct Lay17x { 32751: optional i8 a; 32767: optional i16 b; 5: optional Rc<str> c }
    struct Lay17y { 32751: required Small a; 32767: optional bool b; 5: required list<i32> c }
    struct Lay18x { 1: optional bool a; 128: required string b; 129: optional bool c }
    struct Lay18y { 1: required Box<bool> a; 128: optional Arc<bool> b; 129: required double c }
    struct Lay19x { 200: optional list<bool> a; 215: required i64 b; 231: optional Small c }
    struct Lay19y { 200: optional i8 a; 215: optional i16 b; 231: optional Rc<str> c }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    struct Lay20x { 8191: required Color a; 8192: required Choice b; 8193: optional binary c }
    struct Lay20y { 8191: optional bool a; 8192: required string b; 8193: optional bool c }
    struct Lay21x { -64: required bool a; -65: optional i32 b; -63: required bool c }
    struct Lay21y { -64: optional list<bool> a; -65: required i64 b; -63: optional Small c }
    struct Lay22x { 63: required Small a; 64: optional bool b; 65: required list<i32> c }
    struct Lay22y { 63: required Color a; 64: required Choice b; 65: optional binary c }
    struct Lay23x { 1: required Box<bool> a; 15: optional Arc<bool> b; 31: required double c }
    struct Lay23y { 1: required bool a; 15: optional i32 b; 31: required bool c }
    struct Lay24x { -5: optional i8 a; 10: optional i16 b; 26: optional Rc<str> c }
    struct Lay24y { -5: required Small a; 10: optional bool b; 26: required list<i32> c }
    struct Lay25x { 5: optional bool a; 5000: required string b; 5014: optional bool c }
    struct Lay25y { 5: required Box<bool> a; 5000: optional Arc<bool> b; 5014: required double c }
    struct Lay26x { -32768: optional list<bool> a; -32753: required i64 b; -32737: optional Small c }
    struct Lay26y { -32768: optional i8 a; -32753: optional i16 b; -32737: optional Rc<str> c }
    struct Lay27x { 256: required Color a; 512: required Choice b; 1: optional binary c }
    struct Lay27y { 256: optional bool a; 512: required string b; 1: optional bool c }
    struct Lay28x { 1: required bool a; -1: optional i32 b; 2: required bool c }
    struct Lay28y { 1: optional list<bool> a; -1: required i64 b; 2: optional Small c }
    struct Lay29x { 2: required Small a; 1: optional bool b; 3: required list<i32> c }
    struct Lay29y { 2: required Color a; 1: required Choice b; 3: optional binary c }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    union Uni0 { 1: bool A; 2: i32 B; 3: Small C; }
    union Uni3 { 15: bool A; 16: i32 B; 30: Small C; }
    union Uni6 { 3: bool A; 2: i32 B; 1: Small C; }
    union Uni9 { 0: bool A; 1: i32 B; 2: Small C; }
    union Uni12 { -1: bool A; -2: i32 B; -3: Small C; }
    union Uni15 { 32767: bool A; -32768: i32 B; 1: Small C; }
    union Uni18 { 1: bool A; 128: i32 B; 129: Small C; }
    union Uni21 { -64: bool A; -65: i32 B; -63: Small C; }
    union Uni24 { -5: bool A; 10: i32 B; 26: Small C; }
    union Uni27 { 256: bool A; 512: i32 B; 1: Small C; }
}
#[allow(clippy::needless_update)]
impl Subject for Lay0x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay0x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay0y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay0y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay1x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay1x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay1y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay1y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay2x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay2x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay2y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay2y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay3x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay3x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay3y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay3y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay4x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay4x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay4y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay4y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay5x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay5x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay5y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay5y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay6x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay6x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay6y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay6y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay7x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay7x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay7y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay7y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay8x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay8x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay8y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay8y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay9x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay9x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay9y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay9y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay10x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay10x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay10y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay10y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay11x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay11x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay11y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay11y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay12x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay12x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay12y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay12y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay13x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay13x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay13y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay13y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay14x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay14x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay14y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay14y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay15x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay15x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay15y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay15y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay16x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay16x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay16y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay16y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay17x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay17x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay17y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay17y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay18x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay18x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay18y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay18y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay19x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay19x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay19y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay19y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay20x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay20x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay20y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay20y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay21x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay21x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay21y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay21y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay22x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay22x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay22y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay22y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay23x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay23x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay23y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay23y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay24x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay24x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay24y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay24y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay25x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay25x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay25y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay25y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay26x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay26x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay26y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay26y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay27x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay27x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay27y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay27y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay28x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay28x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay28y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay28y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay29x {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay29x { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for Lay29y {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Lay29y { a: conv(&f[0]), b: conv(&f[1]), c: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m(), self.c.to_m()]) }
}
impl Subject for Uni0 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni0::A(conv(x)),
      M::Union(1, x) => Uni0::B(conv(x)),
      M::Union(2, x) => Uni0::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni0::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni0::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni0::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni3 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni3::A(conv(x)),
      M::Union(1, x) => Uni3::B(conv(x)),
      M::Union(2, x) => Uni3::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni3::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni3::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni3::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni6 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni6::A(conv(x)),
      M::Union(1, x) => Uni6::B(conv(x)),
      M::Union(2, x) => Uni6::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni6::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni6::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni6::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni9 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni9::A(conv(x)),
      M::Union(1, x) => Uni9::B(conv(x)),
      M::Union(2, x) => Uni9::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni9::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni9::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni9::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni12 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni12::A(conv(x)),
      M::Union(1, x) => Uni12::B(conv(x)),
      M::Union(2, x) => Uni12::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni12::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni12::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni12::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni15 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni15::A(conv(x)),
      M::Union(1, x) => Uni15::B(conv(x)),
      M::Union(2, x) => Uni15::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni15::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni15::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni15::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni18 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni18::A(conv(x)),
      M::Union(1, x) => Uni18::B(conv(x)),
      M::Union(2, x) => Uni18::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni18::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni18::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni18::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni21 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni21::A(conv(x)),
      M::Union(1, x) => Uni21::B(conv(x)),
      M::Union(2, x) => Uni21::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni21::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni21::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni21::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni24 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni24::A(conv(x)),
      M::Union(1, x) => Uni24::B(conv(x)),
      M::Union(2, x) => Uni24::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni24::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni24::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni24::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for Uni27 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => Uni27::A(conv(x)),
      M::Union(1, x) => Uni27::B(conv(x)),
      M::Union(2, x) => Uni27::C(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      Uni27::A(x) => M::Union(0, Box::new(x.to_m())),
      Uni27::B(x) => M::Union(1, Box::new(x.to_m())),
      Uni27::C(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    struct Sets { 1: required set<i32> ints; 2: optional set<string> texts; 3: optional bool after; }
}
#[allow(clippy::needless_update)]
impl Subject for Sets {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    Sets { ints: conv(&f[0]), texts: conv(&f[1]), after: conv(&f[2]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.ints.to_m(), self.texts.to_m(), self.after.to_m()]) }
}
compact_thrift_runtime::thrift! {
    namespace rust test
    struct Node { 1: optional Box<Node> next; 2: optional list<Node> kids; 3: required i32 v; }
}
pub const IDL: &str = r##"    /// enum doc
    enum Color { RED = 0; GREEN = 1; /** documented */ BLUE = 7; BIG = 2147483647; NEG = -5; }
    enum Zero { ONLY = 3; }
    struct Empty {}
    struct Small { 1: required i32 a; 2: optional string b; }
    union Choice {
      /** doc */
      1: i32 number
      2: string text;
      3: bool flag
      4: Small small;
      5: double real;
      20: list<i32> many;
      21: Empty nothing
      -3: binary raw;
      300: i64 big;
      22: list<bool> flags;
      23: Color color;
      24: i8 tiny
      25: i16 short;
    }
    union OneFlag { 1: bool only; }
    union Late { 5: Empty first; 1: i64 second; }
    struct AllReq {
      1: required bool flag;
      2: required i8 tiny
      3: required i16 short
      4: required i32 medium = 5;
      5: required i64 long
      6: required double real;
      7: required string text;
      8: required binary raw;
      9: required Color color;
      10: required Small small;
      11: required list<i32> ints;
      12: required list<bool> flags;
      13: required list<string> texts;
      14: required list<binary> raws;
      15: required list<Small> smalls;
      16: required Choice choice;
      17: required list<double> reals;
      18: required list<Color> colors;
      19: required list<Choice> choices
      20: required list<i8> tinies;
      21: required list<i64> longs;
      22: required list<i16> shorts;
    }
    /** a struct
     *  of optional fields */
    struct AllOpt {
      1: optional bool flag;
      2: optional i8 tiny
      3: optional i16 short
      4: optional i32 medium
      5: optional i64 long
      6: optional double real;
      7: optional string text = "none";
      8: optional binary raw;
      9: optional Color color;
      10: optional Small small;
      11: optional list<i32> ints;
      12: optional list<bool> flags;
      13: optional list<string> texts;
      14: optional list<binary> raws;
      15: optional list<Small> smalls;
      16: optional Choice choice;
      17: optional list<double> reals;
      18: optional list<Color> colors;
      19: optional bool last = true;
    }
    struct WrapReq {
      1: required Box<bool> box_flag;
      2: required Rc<bool> rc_flag
      3: required Arc<bool> arc_flag
      4: required Box<i32> box_int;
      5: required Rc<string> rc_string;
      6: required Arc<String> arc_string;
      7: required Box<str> box_str;
      8: required Rc<str> rc_str;
      9: required Arc<str> arc_str;
      10: required Box<Small> box_small;
      11: required Rc<Small> rc_small;
      12: required Arc<Choice> arc_choice;
      13: required Box<double> box_real;
      14: required Box<Color> box_color;
      15: required Box<binary> box_raw;
    }
    struct WrapOpt {
      1: optional Box<bool> box_flag;
      2: optional Rc<bool> rc_flag
      3: optional Arc<bool> arc_flag
      4: optional Box<i32> box_int;
      5: optional Rc<string> rc_string;
      7: optional Box<str> box_str;
      8: optional Rc<str> rc_str;
      9: optional Arc<str> arc_str;
      10: optional Box<Small> box_small;
      11: optional Rc<Small> rc_small;
      12: optional Arc<Choice> arc_choice;
    }
    struct Bytes {
      1: required byte one;
      2: optional byte maybe;
      3: required list<byte> list_of;
    }
    struct Nested2 {
      1: optional Empty e;
      2: required Choice c;
      3: optional AllOpt opts;
    }
    struct Nested {
      1: required Small first;
      2: optional Nested2 second;
      3: required list<Nested2> rest;
      4: optional bool flag;
    }
    /// presence in all combinations
    struct Mixed {
      1: required i32 a;
      2: optional i32 b;
      3: required bool c;
      4: optional string d;
    }
    struct ReqThree {
      7: required Small z;
      3: required list<i32> y;
      5: required bool x;
    }
    struct Names {
      1: required i32 last_field_id;
      2: optional i32 input;
      3: required bool field_type;
      4: required i32 output;
      5: optional i32 result;
      6: required i32 stop;
      7: optional string inner;
    }
    struct HugeElement {
      1: required i64 a1; 2: required i64 a2; 3: required i64 a3; 4: required i64 a4;
      5: required string s1; 6: required string s2; 7: required string s3; 8: required string s4;
    }
    struct Lay0x { 1: required bool a; 2: optional i32 b; 3: required bool c }
    struct Lay0y { 1: optional list<bool> a; 2: required i64 b; 3: optional Small c }
    struct Lay1x { 1: required Small a; 16: optional bool b; 17: required list<i32> c }
    struct Lay1y { 1: required Color a; 16: required Choice b; 17: optional binary c }
    struct Lay2x { 1: required Box<bool> a; 17: optional Arc<bool> b; 33: required double c }
    struct Lay2y { 1: required bool a; 17: optional i32 b; 33: required bool c }
    struct Lay3x { 15: optional i8 a; 16: optional i16 b; 30: optional Rc<str> c }
    struct Lay3y { 15: required Small a; 16: optional bool b; 30: required list<i32> c }
    struct Lay4x { 16: optional bool a; 32: required string b; 48: optional bool c }
    struct Lay4y { 16: required Box<bool> a; 32: optional Arc<bool> b; 48: required double c }
    struct Lay5x { 14: optional list<bool> a; 29: required i64 b; 45: optional Small c }
    struct Lay5y { 14: optional i8 a; 29: optional i16 b; 45: optional Rc<str> c }
    struct Lay6x { 3: required Color a; 2: required Choice b; 1: optional binary c }
    struct Lay6y { 3: optional bool a; 2: required string b; 1: optional bool c }
    struct Lay7x { 17: required bool a; 1: optional i32 b; 2: required bool c }
    struct Lay7y { 17: optional list<bool> a; 1: required i64 b; 2: optional Small c }
    struct Lay8x { 100: required Small a; 1: optional bool b; 50: required list<i32> c }
    struct Lay8y { 100: required Color a; 1: required Choice b; 50: optional binary c }
    struct Lay9x { 0: required Box<bool> a; 1: optional Arc<bool> b; 2: required double c }
    struct Lay9y { 0: required bool a; 1: optional i32 b; 2: required bool c }
    struct Lay10x { 1: optional i8 a; 0: optional i16 b; 2: optional Rc<str> c }
    struct Lay10y { 1: required Small a; 0: optional bool b; 2: required list<i32> c }
    struct Lay11x { -1: optional bool a; 0: required string b; 1: optional bool c }
    struct Lay11y { -1: required Box<bool> a; 0: optional Arc<bool> b; 1: required double c }
    struct Lay12x { -1: optional list<bool> a; -2: required i64 b; -3: optional Small c }
    struct Lay12y { -1: optional i8 a; -2: optional i16 b; -3: optional Rc<str> c }
    struct Lay13x { -16: required Color a; -1: required Choice b; 14: optional binary c }
    struct Lay13y { -16: optional bool a; -1: required string b; 14: optional bool c }
    struct Lay14x { -32768: required bool a; 32767: optional i32 b; 0: required bool c }
    struct Lay14y { -32768: optional list<bool> a; 32767: required i64 b; 0: optional Small c }
    struct Lay15x { 32767: required Small a; -32768: optional bool b; 1: required list<i32> c }
    struct Lay15y { 32767: required Color a; -32768: required Choice b; 1: optional binary c }
    struct Lay16x { 32752: required Box<bool> a; 32767: optional Arc<bool> b; 1: required double c }
    struct Lay16y { 32752: required bool a; 32767: optional i32 b; 1: required bool c }
    struct Lay17x { 32751: optional i8 a; 32767: optional i16 b; 5: optional Rc<str> c }
    struct Lay17y { 32751: required Small a; 32767: optional bool b; 5: required list<i32> c }
    struct Lay18x { 1: optional bool a; 128: required string b; 129: optional bool c }
    struct Lay18y { 1: required Box<bool> a; 128: optional Arc<bool> b; 129: required double c }
    struct Lay19x { 200: optional list<bool> a; 215: required i64 b; 231: optional Small c }
    struct Lay19y { 200: optional i8 a; 215: optional i16 b; 231: optional Rc<str> c }
    struct Lay20x { 8191: required Color a; 8192: required Choice b; 8193: optional binary c }
    struct Lay20y { 8191: optional bool a; 8192: required string b; 8193: optional bool c }
    struct Lay21x { -64: required bool a; -65: optional i32 b; -63: required bool c }
    struct Lay21y { -64: optional list<bool> a; -65: required i64 b; -63: optional Small c }
    struct Lay22x { 63: required Small a; 64: optional bool b; 65: required list<i32> c }
    struct Lay22y { 63: required Color a; 64: required Choice b; 65: optional binary c }
    struct Lay23x { 1: required Box<bool> a; 15: optional Arc<bool> b; 31: required double c }
    struct Lay23y { 1: required bool a; 15: optional i32 b; 31: required bool c }
    struct Lay24x { -5: optional i8 a; 10: optional i16 b; 26: optional Rc<str> c }
    struct Lay24y { -5: required Small a; 10: optional bool b; 26: required list<i32> c }
    struct Lay25x { 5: optional bool a; 5000: required string b; 5014: optional bool c }
    struct Lay25y { 5: required Box<bool> a; 5000: optional Arc<bool> b; 5014: required double c }
    struct Lay26x { -32768: optional list<bool> a; -32753: required i64 b; -32737: optional Small c }
    struct Lay26y { -32768: optional i8 a; -32753: optional i16 b; -32737: optional Rc<str> c }
    struct Lay27x { 256: required Color a; 512: required Choice b; 1: optional binary c }
    struct Lay27y { 256: optional bool a; 512: required string b; 1: optional bool c }
    struct Lay28x { 1: required bool a; -1: optional i32 b; 2: required bool c }
    struct Lay28y { 1: optional list<bool> a; -1: required i64 b; 2: optional Small c }
    struct Lay29x { 2: required Small a; 1: optional bool b; 3: required list<i32> c }
    struct Lay29y { 2: required Color a; 1: required Choice b; 3: optional binary c }
    union Uni0 { 1: bool A; 2: i32 B; 3: Small C; }
    union Uni3 { 15: bool A; 16: i32 B; 30: Small C; }
    union Uni6 { 3: bool A; 2: i32 B; 1: Small C; }
    union Uni9 { 0: bool A; 1: i32 B; 2: Small C; }
    union Uni12 { -1: bool A; -2: i32 B; -3: Small C; }
    union Uni15 { 32767: bool A; -32768: i32 B; 1: Small C; }
    union Uni18 { 1: bool A; 128: i32 B; 129: Small C; }
    union Uni21 { -64: bool A; -65: i32 B; -63: Small C; }
    union Uni24 { -5: bool A; 10: i32 B; 26: Small C; }
    union Uni27 { 256: bool A; 512: i32 B; 1: Small C; }
    struct Sets { 1: required set<i32> ints; 2: optional set<string> texts; 3: optional bool after; }"##;
pub fn subjects(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<Color>("Color", idl.def("Color"), "def"),
        vt::<Zero>("Zero", idl.def("Zero"), "def"),
        vt::<Empty>("Empty", idl.def("Empty"), "def"),
        vt::<Small>("Small", idl.def("Small"), "def"),
        vt::<Choice>("Choice", idl.def("Choice"), "def"),
        vt::<OneFlag>("OneFlag", idl.def("OneFlag"), "def"),
        vt::<Late>("Late", idl.def("Late"), "def"),
        vt::<AllReq>("AllReq", idl.def("AllReq"), "def"),
        vt::<AllOpt>("AllOpt", idl.def("AllOpt"), "def"),
        vt::<WrapReq>("WrapReq", idl.def("WrapReq"), "def"),
        vt::<WrapOpt>("WrapOpt", idl.def("WrapOpt"), "def"),
        vt::<Bytes>("Bytes", idl.def("Bytes"), "def"),
        vt::<Nested>("Nested", idl.def("Nested"), "def"),
        vt::<Nested2>("Nested2", idl.def("Nested2"), "def"),
        vt::<Mixed>("Mixed", idl.def("Mixed"), "def"),
        vt::<ReqThree>("ReqThree", idl.def("ReqThree"), "def"),
        vt::<Names>("Names", idl.def("Names"), "def"),
        vt::<HugeElement>("HugeElement", idl.def("HugeElement"), "def"),
        vt::<Lay0x>("Lay0x", idl.def("Lay0x"), "layout"),
        vt::<Lay0y>("Lay0y", idl.def("Lay0y"), "layout"),
        vt::<Lay1x>("Lay1x", idl.def("Lay1x"), "layout"),
        vt::<Lay1y>("Lay1y", idl.def("Lay1y"), "layout"),
        vt::<Lay2x>("Lay2x", idl.def("Lay2x"), "layout"),
        vt::<Lay2y>("Lay2y", idl.def("Lay2y"), "layout"),
        vt::<Lay3x>("Lay3x", idl.def("Lay3x"), "layout"),
        vt::<Lay3y>("Lay3y", idl.def("Lay3y"), "layout"),
        vt::<Lay4x>("Lay4x", idl.def("Lay4x"), "layout"),
        vt::<Lay4y>("Lay4y", idl.def("Lay4y"), "layout"),
        vt::<Lay5x>("Lay5x", idl.def("Lay5x"), "layout"),
        vt::<Lay5y>("Lay5y", idl.def("Lay5y"), "layout"),
        vt::<Lay6x>("Lay6x", idl.def("Lay6x"), "layout"),
        vt::<Lay6y>("Lay6y", idl.def("Lay6y"), "layout"),
        vt::<Lay7x>("Lay7x", idl.def("Lay7x"), "layout"),
        vt::<Lay7y>("Lay7y", idl.def("Lay7y"), "layout"),
        vt::<Lay8x>("Lay8x", idl.def("Lay8x"), "layout"),
        vt::<Lay8y>("Lay8y", idl.def("Lay8y"), "layout"),
        vt::<Lay9x>("Lay9x", idl.def("Lay9x"), "layout"),
        vt::<Lay9y>("Lay9y", idl.def("Lay9y"), "layout"),
        vt::<Lay10x>("Lay10x", idl.def("Lay10x"), "layout"),
        vt::<Lay10y>("Lay10y", idl.def("Lay10y"), "layout"),
        vt::<Lay11x>("Lay11x", idl.def("Lay11x"), "layout"),
        vt::<Lay11y>("Lay11y", idl.def("Lay11y"), "layout"),
        vt::<Lay12x>("Lay12x", idl.def("Lay12x"), "layout"),
        vt::<Lay12y>("Lay12y", idl.def("Lay12y"), "layout"),
        vt::<Lay13x>("Lay13x", idl.def("Lay13x"), "layout"),
        vt::<Lay13y>("Lay13y", idl.def("Lay13y"), "layout"),
        vt::<Lay14x>("Lay14x", idl.def("Lay14x"), "layout"),
        vt::<Lay14y>("Lay14y", idl.def("Lay14y"), "layout"),
        vt::<Lay15x>("Lay15x", idl.def("Lay15x"), "layout"),
        vt::<Lay15y>("Lay15y", idl.def("Lay15y"), "layout"),
        vt::<Lay16x>("Lay16x", idl.def("Lay16x"), "layout"),
        vt::<Lay16y>("Lay16y", idl.def("Lay16y"), "layout"),
        vt::<Lay17x>("Lay17x", idl.def("Lay17x"), "layout"),
        vt::<Lay17y>("Lay17y", idl.def("Lay17y"), "layout"),
        vt::<Lay18x>("Lay18x", idl.def("Lay18x"), "layout"),
        vt::<Lay18y>("Lay18y", idl.def("Lay18y"), "layout"),
        vt::<Lay19x>("Lay19x", idl.def("Lay19x"), "layout"),
        vt::<Lay19y>("Lay19y", idl.def("Lay19y"), "layout"),
        vt::<Lay20x>("Lay20x", idl.def("Lay20x"), "layout"),
        vt::<Lay20y>("Lay20y", idl.def("Lay20y"), "layout"),
        vt::<Lay21x>("Lay21x", idl.def("Lay21x"), "layout"),
        vt::<Lay21y>("Lay21y", idl.def("Lay21y"), "layout"),
        vt::<Lay22x>("Lay22x", idl.def("Lay22x"), "layout"),
        vt::<Lay22y>("Lay22y", idl.def("Lay22y"), "layout"),
        vt::<Lay23x>("Lay23x", idl.def("Lay23x"), "layout"),
        vt::<Lay23y>("Lay23y", idl.def("Lay23y"), "layout"),
        vt::<Lay24x>("Lay24x", idl.def("Lay24x"), "layout"),
        vt::<Lay24y>("Lay24y", idl.def("Lay24y"), "layout"),
        vt::<Lay25x>("Lay25x", idl.def("Lay25x"), "layout"),
        vt::<Lay25y>("Lay25y", idl.def("Lay25y"), "layout"),
        vt::<Lay26x>("Lay26x", idl.def("Lay26x"), "layout"),
        vt::<Lay26y>("Lay26y", idl.def("Lay26y"), "layout"),
        vt::<Lay27x>("Lay27x", idl.def("Lay27x"), "layout"),
        vt::<Lay27y>("Lay27y", idl.def("Lay27y"), "layout"),
        vt::<Lay28x>("Lay28x", idl.def("Lay28x"), "layout"),
        vt::<Lay28y>("Lay28y", idl.def("Lay28y"), "layout"),
        vt::<Lay29x>("Lay29x", idl.def("Lay29x"), "layout"),
        vt::<Lay29y>("Lay29y", idl.def("Lay29y"), "layout"),
        vt::<Uni0>("Uni0", idl.def("Uni0"), "layout"),
        vt::<Uni3>("Uni3", idl.def("Uni3"), "layout"),
        vt::<Uni6>("Uni6", idl.def("Uni6"), "layout"),
        vt::<Uni9>("Uni9", idl.def("Uni9"), "layout"),
        vt::<Uni12>("Uni12", idl.def("Uni12"), "layout"),
        vt::<Uni15>("Uni15", idl.def("Uni15"), "layout"),
        vt::<Uni18>("Uni18", idl.def("Uni18"), "layout"),
        vt::<Uni21>("Uni21", idl.def("Uni21"), "layout"),
        vt::<Uni24>("Uni24", idl.def("Uni24"), "layout"),
        vt::<Uni27>("Uni27", idl.def("Uni27"), "layout"),
        vt::<Sets>("Sets", idl.def("Sets"), "set"),
    ]
}
#[allow(clippy::type_complexity)]
pub fn constructors() -> Vec<(&'static str, fn(&M) -> M)> {
    vec![
        ("Empty", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Empty::default(); let _ = (&d, &f); Empty::new().to_m() }),
        ("Small", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Small::default(); let _ = (&d, &f); Small::new(like(&d.a, &f[0]), like(&d.b, &f[1])).to_m() }),
        ("AllReq", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = AllReq::default(); let _ = (&d, &f); AllReq::new(like(&d.flag, &f[0]), like(&d.tiny, &f[1]), like(&d.short, &f[2]), like(&d.medium, &f[3]), like(&d.long, &f[4]), like(&d.real, &f[5]), like(&d.text, &f[6]), like(&d.raw, &f[7]), like(&d.color, &f[8]), like(&d.small, &f[9]), like(&d.ints, &f[10]), like(&d.flags, &f[11]), like(&d.texts, &f[12]), like(&d.raws, &f[13]), like(&d.smalls, &f[14]), like(&d.choice, &f[15]), like(&d.reals, &f[16]), like(&d.colors, &f[17]), like(&d.choices, &f[18]), like(&d.tinies, &f[19]), like(&d.longs, &f[20]), like(&d.shorts, &f[21])).to_m() }),
        ("AllOpt", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = AllOpt::default(); let _ = (&d, &f); AllOpt::new(like(&d.flag, &f[0]), like(&d.tiny, &f[1]), like(&d.short, &f[2]), like(&d.medium, &f[3]), like(&d.long, &f[4]), like(&d.real, &f[5]), like(&d.text, &f[6]), like(&d.raw, &f[7]), like(&d.color, &f[8]), like(&d.small, &f[9]), like(&d.ints, &f[10]), like(&d.flags, &f[11]), like(&d.texts, &f[12]), like(&d.raws, &f[13]), like(&d.smalls, &f[14]), like(&d.choice, &f[15]), like(&d.reals, &f[16]), like(&d.colors, &f[17]), like(&d.last, &f[18])).to_m() }),
        ("WrapReq", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = WrapReq::default(); let _ = (&d, &f); WrapReq::new(like(&d.box_flag, &f[0]), like(&d.rc_flag, &f[1]), like(&d.arc_flag, &f[2]), like(&d.box_int, &f[3]), like(&d.rc_string, &f[4]), like(&d.arc_string, &f[5]), like(&d.box_str, &f[6]), like(&d.rc_str, &f[7]), like(&d.arc_str, &f[8]), like(&d.box_small, &f[9]), like(&d.rc_small, &f[10]), like(&d.arc_choice, &f[11]), like(&d.box_real, &f[12]), like(&d.box_color, &f[13]), like(&d.box_raw, &f[14])).to_m() }),
        ("WrapOpt", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = WrapOpt::default(); let _ = (&d, &f); WrapOpt::new(like(&d.box_flag, &f[0]), like(&d.rc_flag, &f[1]), like(&d.arc_flag, &f[2]), like(&d.box_int, &f[3]), like(&d.rc_string, &f[4]), like(&d.box_str, &f[5]), like(&d.rc_str, &f[6]), like(&d.arc_str, &f[7]), like(&d.box_small, &f[8]), like(&d.rc_small, &f[9]), like(&d.arc_choice, &f[10])).to_m() }),
        ("Bytes", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Bytes::default(); let _ = (&d, &f); Bytes::new(like(&d.one, &f[0]), like(&d.maybe, &f[1]), like(&d.list_of, &f[2])).to_m() }),
        ("Nested", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Nested::default(); let _ = (&d, &f); Nested::new(like(&d.first, &f[0]), like(&d.second, &f[1]), like(&d.rest, &f[2]), like(&d.flag, &f[3])).to_m() }),
        ("Nested2", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Nested2::default(); let _ = (&d, &f); Nested2::new(like(&d.e, &f[0]), like(&d.c, &f[1]), like(&d.opts, &f[2])).to_m() }),
        ("Mixed", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Mixed::default(); let _ = (&d, &f); Mixed::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2]), like(&d.d, &f[3])).to_m() }),
        ("ReqThree", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = ReqThree::default(); let _ = (&d, &f); ReqThree::new(like(&d.z, &f[0]), like(&d.y, &f[1]), like(&d.x, &f[2])).to_m() }),
        ("Names", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Names::default(); let _ = (&d, &f); Names::new(like(&d.last_field_id, &f[0]), like(&d.input, &f[1]), like(&d.field_type, &f[2]), like(&d.output, &f[3]), like(&d.result, &f[4]), like(&d.stop, &f[5]), like(&d.inner, &f[6])).to_m() }),
        ("HugeElement", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = HugeElement::default(); let _ = (&d, &f); HugeElement::new(like(&d.a1, &f[0]), like(&d.a2, &f[1]), like(&d.a3, &f[2]), like(&d.a4, &f[3]), like(&d.s1, &f[4]), like(&d.s2, &f[5]), like(&d.s3, &f[6]), like(&d.s4, &f[7])).to_m() }),
        ("Lay0x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay0x::default(); let _ = (&d, &f); Lay0x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay0y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay0y::default(); let _ = (&d, &f); Lay0y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay1x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay1x::default(); let _ = (&d, &f); Lay1x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay1y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay1y::default(); let _ = (&d, &f); Lay1y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay2x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay2x::default(); let _ = (&d, &f); Lay2x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay2y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay2y::default(); let _ = (&d, &f); Lay2y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay3x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay3x::default(); let _ = (&d, &f); Lay3x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay3y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay3y::default(); let _ = (&d, &f); Lay3y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay4x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay4x::default(); let _ = (&d, &f); Lay4x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay4y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay4y::default(); let _ = (&d, &f); Lay4y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay5x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay5x::default(); let _ = (&d, &f); Lay5x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay5y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay5y::default(); let _ = (&d, &f); Lay5y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay6x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay6x::default(); let _ = (&d, &f); Lay6x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay6y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay6y::default(); let _ = (&d, &f); Lay6y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay7x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay7x::default(); let _ = (&d, &f); Lay7x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay7y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay7y::default(); let _ = (&d, &f); Lay7y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay8x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay8x::default(); let _ = (&d, &f); Lay8x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay8y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay8y::default(); let _ = (&d, &f); Lay8y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay9x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay9x::default(); let _ = (&d, &f); Lay9x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay9y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay9y::default(); let _ = (&d, &f); Lay9y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay10x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay10x::default(); let _ = (&d, &f); Lay10x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay10y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay10y::default(); let _ = (&d, &f); Lay10y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay11x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay11x::default(); let _ = (&d, &f); Lay11x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay11y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay11y::default(); let _ = (&d, &f); Lay11y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay12x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay12x::default(); let _ = (&d, &f); Lay12x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay12y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay12y::default(); let _ = (&d, &f); Lay12y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay13x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay13x::default(); let _ = (&d, &f); Lay13x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay13y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay13y::default(); let _ = (&d, &f); Lay13y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay14x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay14x::default(); let _ = (&d, &f); Lay14x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay14y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay14y::default(); let _ = (&d, &f); Lay14y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay15x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay15x::default(); let _ = (&d, &f); Lay15x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay15y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay15y::default(); let _ = (&d, &f); Lay15y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay16x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay16x::default(); let _ = (&d, &f); Lay16x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay16y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay16y::default(); let _ = (&d, &f); Lay16y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay17x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay17x::default(); let _ = (&d, &f); Lay17x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay17y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay17y::default(); let _ = (&d, &f); Lay17y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay18x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay18x::default(); let _ = (&d, &f); Lay18x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay18y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay18y::default(); let _ = (&d, &f); Lay18y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay19x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay19x::default(); let _ = (&d, &f); Lay19x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay19y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay19y::default(); let _ = (&d, &f); Lay19y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay20x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay20x::default(); let _ = (&d, &f); Lay20x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay20y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay20y::default(); let _ = (&d, &f); Lay20y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay21x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay21x::default(); let _ = (&d, &f); Lay21x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay21y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay21y::default(); let _ = (&d, &f); Lay21y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay22x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay22x::default(); let _ = (&d, &f); Lay22x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay22y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay22y::default(); let _ = (&d, &f); Lay22y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay23x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay23x::default(); let _ = (&d, &f); Lay23x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay23y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay23y::default(); let _ = (&d, &f); Lay23y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay24x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay24x::default(); let _ = (&d, &f); Lay24x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay24y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay24y::default(); let _ = (&d, &f); Lay24y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay25x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay25x::default(); let _ = (&d, &f); Lay25x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay25y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay25y::default(); let _ = (&d, &f); Lay25y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay26x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay26x::default(); let _ = (&d, &f); Lay26x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay26y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay26y::default(); let _ = (&d, &f); Lay26y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay27x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay27x::default(); let _ = (&d, &f); Lay27x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay27y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay27y::default(); let _ = (&d, &f); Lay27y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay28x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay28x::default(); let _ = (&d, &f); Lay28x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay28y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay28y::default(); let _ = (&d, &f); Lay28y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay29x", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay29x::default(); let _ = (&d, &f); Lay29x::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Lay29y", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Lay29y::default(); let _ = (&d, &f); Lay29y::new(like(&d.a, &f[0]), like(&d.b, &f[1]), like(&d.c, &f[2])).to_m() }),
        ("Sets", |m| { let M::Struct(f) = m else { return cannot(m) }; let d = Sets::default(); let _ = (&d, &f); Sets::new(like(&d.ints, &f[0]), like(&d.texts, &f[1]), like(&d.after, &f[2])).to_m() }),
    ]
}
pub fn constants() -> Vec<(&'static str, i32)> {
    vec![
        ("Color::RED", Color::RED.0),
        ("Color::GREEN", Color::GREEN.0),
        ("Color::BLUE", Color::BLUE.0),
        ("Color::BIG", Color::BIG.0),
        ("Color::NEG", Color::NEG.0),
        ("Zero::ONLY", Zero::ONLY.0),
    ]
}
