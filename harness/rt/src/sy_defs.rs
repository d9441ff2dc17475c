// @generated by tools/gen_sy_defs.py
#![allow(non_snake_case, non_camel_case_types, unused_doc_comments, clippy::all)]
use crate::subject::*;
use mc::ty::{Idl, M};

pub mod call0 {
    compact_thrift_runtime::thrift! {
        
        enum Tone { LOW = 0; HIGH = 9; }
        struct Leaf { 1: required i32 a; 2: optional bool b; }
        union Fork { 1: i32 left; 2: string right; }
    }
}
impl Subject for call0::Tone { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call0::Tone(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call0::Leaf {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call0::Leaf { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
impl Subject for call0::Fork {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call0::Fork::left(conv(x)),
      M::Union(1, x) => call0::Fork::right(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call0::Fork::left(x) => M::Union(0, Box::new(x.to_m())),
      call0::Fork::right(x) => M::Union(1, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call1 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Field0 {
            1: required i32 f0;
            2: required i32 f1
            3: required i32 f2 = 7;
            4: required i32 f3 = 7
            5: required i32 f4 = -3;
            6: required i32 f5 = -3
            7: required i32 f6 = 2.5;
            8: required i32 f7 = 2.5
            9: required i32 f8 = "text";
            10: required i32 f9 = "text"
            11: required i32 f10 = true;
            12: required i32 f11 = true
            13: optional i32 f12;
            14: optional i32 f13
            15: optional i32 f14 = 7;
            16: optional i32 f15 = 7
            17: optional i32 f16 = -3;
            18: optional i32 f17 = -3
            19: optional i32 f18 = 2.5;
            20: optional i32 f19 = 2.5
            21: optional i32 f20 = "text";
            22: optional i32 f21 = "text"
            23: optional i32 f22 = true;
            24: optional i32 f23 = true
        }
        struct Field1 {
            /// one line
            1: required i32 f0;
            /// one line
            2: required i32 f1
            /// one line
            3: required i32 f2 = 7;
            /// one line
            4: required i32 f3 = 7
            /// one line
            5: required i32 f4 = -3;
            /// one line
            6: required i32 f5 = -3
            /// one line
            7: required i32 f6 = 2.5;
            /// one line
            8: required i32 f7 = 2.5
            /// one line
            9: required i32 f8 = "text";
            /// one line
            10: required i32 f9 = "text"
            /// one line
            11: required i32 f10 = true;
            /// one line
            12: required i32 f11 = true
            /// one line
            13: optional i32 f12;
            /// one line
            14: optional i32 f13
            /// one line
            15: optional i32 f14 = 7;
            /// one line
            16: optional i32 f15 = 7
            /// one line
            17: optional i32 f16 = -3;
            /// one line
            18: optional i32 f17 = -3
            /// one line
            19: optional i32 f18 = 2.5;
            /// one line
            20: optional i32 f19 = 2.5
            /// one line
            21: optional i32 f20 = "text";
            /// one line
            22: optional i32 f21 = "text"
            /// one line
            23: optional i32 f22 = true;
            /// one line
            24: optional i32 f23 = true
        }
        struct Field2 {
            /** block
               of two lines */
            1: required i32 f0;
            /** block
               of two lines */
            2: required i32 f1
            /** block
               of two lines */
            3: required i32 f2 = 7;
            /** block
               of two lines */
            4: required i32 f3 = 7
            /** block
               of two lines */
            5: required i32 f4 = -3;
            /** block
               of two lines */
            6: required i32 f5 = -3
            /** block
               of two lines */
            7: required i32 f6 = 2.5;
            /** block
               of two lines */
            8: required i32 f7 = 2.5
            /** block
               of two lines */
            9: required i32 f8 = "text";
            /** block
               of two lines */
            10: required i32 f9 = "text"
            /** block
               of two lines */
            11: required i32 f10 = true;
            /** block
               of two lines */
            12: required i32 f11 = true
            /** block
               of two lines */
            13: optional i32 f12;
            /** block
               of two lines */
            14: optional i32 f13
            /** block
               of two lines */
            15: optional i32 f14 = 7;
            /** block
               of two lines */
            16: optional i32 f15 = 7
            /** block
               of two lines */
            17: optional i32 f16 = -3;
            /** block
               of two lines */
            18: optional i32 f17 = -3
            /** block
               of two lines */
            19: optional i32 f18 = 2.5;
            /** block
               of two lines */
            20: optional i32 f19 = 2.5
            /** block
               of two lines */
            21: optional i32 f20 = "text";
            /** block
               of two lines */
            22: optional i32 f21 = "text"
            /** block
               of two lines */
            23: optional i32 f22 = true;
            /** block
               of two lines */
            24: optional i32 f23 = true
        }
        struct Field3 {
            // plain
            1: required i32 f0;
            // plain
            2: required i32 f1
            // plain
            3: required i32 f2 = 7;
            // plain
            4: required i32 f3 = 7
            // plain
            5: required i32 f4 = -3;
            // plain
            6: required i32 f5 = -3
            // plain
            7: required i32 f6 = 2.5;
            // plain
            8: required i32 f7 = 2.5
            // plain
            9: required i32 f8 = "text";
            // plain
            10: required i32 f9 = "text"
            // plain
            11: required i32 f10 = true;
            // plain
            12: required i32 f11 = true
            // plain
            13: optional i32 f12;
            // plain
            14: optional i32 f13
            // plain
            15: optional i32 f14 = 7;
            // plain
            16: optional i32 f15 = 7
            // plain
            17: optional i32 f16 = -3;
            // plain
            18: optional i32 f17 = -3
            // plain
            19: optional i32 f18 = 2.5;
            // plain
            20: optional i32 f19 = 2.5
            // plain
            21: optional i32 f20 = "text";
            // plain
            22: optional i32 f21 = "text"
            // plain
            23: optional i32 f22 = true;
            // plain
            24: optional i32 f23 = true
        }
        struct Field4 {
            /* plain block */
            1: required i32 f0;
            /* plain block */
            2: required i32 f1
            /* plain block */
            3: required i32 f2 = 7;
            /* plain block */
            4: required i32 f3 = 7
            /* plain block */
            5: required i32 f4 = -3;
            /* plain block */
            6: required i32 f5 = -3
            /* plain block */
            7: required i32 f6 = 2.5;
            /* plain block */
            8: required i32 f7 = 2.5
            /* plain block */
            9: required i32 f8 = "text";
            /* plain block */
            10: required i32 f9 = "text"
            /* plain block */
            11: required i32 f10 = true;
            /* plain block */
            12: required i32 f11 = true
            /* plain block */
            13: optional i32 f12;
            /* plain block */
            14: optional i32 f13
            /* plain block */
            15: optional i32 f14 = 7;
            /* plain block */
            16: optional i32 f15 = 7
            /* plain block */
            17: optional i32 f16 = -3;
            /* plain block */
            18: optional i32 f17 = -3
            /* plain block */
            19: optional i32 f18 = 2.5;
            /* plain block */
            20: optional i32 f19 = 2.5
            /* plain block */
            21: optional i32 f20 = "text";
            /* plain block */
            22: optional i32 f21 = "text"
            /* plain block */
            23: optional i32 f22 = true;
            /* plain block */
            24: optional i32 f23 = true
        }
        struct Field5 {
            /// first
            /// second
            /** third */
            1: required i32 f0;
            /// first
            /// second
            /** third */
            2: required i32 f1
            /// first
            /// second
            /** third */
            3: required i32 f2 = 7;
            /// first
            /// second
            /** third */
            4: required i32 f3 = 7
            /// first
            /// second
            /** third */
            5: required i32 f4 = -3;
            /// first
            /// second
            /** third */
            6: required i32 f5 = -3
            /// first
            /// second
            /** third */
            7: required i32 f6 = 2.5;
            /// first
            /// second
            /** third */
            8: required i32 f7 = 2.5
            /// first
            /// second
            /** third */
            9: required i32 f8 = "text";
            /// first
            /// second
            /** third */
            10: required i32 f9 = "text"
            /// first
            /// second
            /** third */
            11: required i32 f10 = true;
            /// first
            /// second
            /** third */
            12: required i32 f11 = true
            /// first
            /// second
            /** third */
            13: optional i32 f12;
            /// first
            /// second
            /** third */
            14: optional i32 f13
            /// first
            /// second
            /** third */
            15: optional i32 f14 = 7;
            /// first
            /// second
            /** third */
            16: optional i32 f15 = 7
            /// first
            /// second
            /** third */
            17: optional i32 f16 = -3;
            /// first
            /// second
            /** third */
            18: optional i32 f17 = -3
            /// first
            /// second
            /** third */
            19: optional i32 f18 = 2.5;
            /// first
            /// second
            /** third */
            20: optional i32 f19 = 2.5
            /// first
            /// second
            /** third */
            21: optional i32 f20 = "text";
            /// first
            /// second
            /** third */
            22: optional i32 f21 = "text"
            /// first
            /// second
            /** third */
            23: optional i32 f22 = true;
            /// first
            /// second
            /** third */
            24: optional i32 f23 = true
        }
        struct Field6 {
            1: required list<string> f0;
            2: required list<string> f1
            3: required list<string> f2 = 7;
            4: required list<string> f3 = 7
            5: required list<string> f4 = -3;
            6: required list<string> f5 = -3
            7: required list<string> f6 = 2.5;
            8: required list<string> f7 = 2.5
            9: required list<string> f8 = "text";
            10: required list<string> f9 = "text"
            11: required list<string> f10 = true;
            12: required list<string> f11 = true
            13: optional list<string> f12;
            14: optional list<string> f13
            15: optional list<string> f14 = 7;
            16: optional list<string> f15 = 7
            17: optional list<string> f16 = -3;
            18: optional list<string> f17 = -3
            19: optional list<string> f18 = 2.5;
            20: optional list<string> f19 = 2.5
            21: optional list<string> f20 = "text";
            22: optional list<string> f21 = "text"
            23: optional list<string> f22 = true;
            24: optional list<string> f23 = true
        }
        struct Field7 {
            /// one line
            1: required list<string> f0;
            /// one line
            2: required list<string> f1
            /// one line
            3: required list<string> f2 = 7;
            /// one line
            4: required list<string> f3 = 7
            /// one line
            5: required list<string> f4 = -3;
            /// one line
            6: required list<string> f5 = -3
            /// one line
            7: required list<string> f6 = 2.5;
            /// one line
            8: required list<string> f7 = 2.5
            /// one line
            9: required list<string> f8 = "text";
            /// one line
            10: required list<string> f9 = "text"
            /// one line
            11: required list<string> f10 = true;
            /// one line
            12: required list<string> f11 = true
            /// one line
            13: optional list<string> f12;
            /// one line
            14: optional list<string> f13
            /// one line
            15: optional list<string> f14 = 7;
            /// one line
            16: optional list<string> f15 = 7
            /// one line
            17: optional list<string> f16 = -3;
            /// one line
            18: optional list<string> f17 = -3
            /// one line
            19: optional list<string> f18 = 2.5;
            /// one line
            20: optional list<string> f19 = 2.5
            /// one line
            21: optional list<string> f20 = "text";
            /// one line
            22: optional list<string> f21 = "text"
            /// one line
            23: optional list<string> f22 = true;
            /// one line
            24: optional list<string> f23 = true
        }
        struct Field8 {
            /** block
               of two lines */
            1: required list<string> f0;
            /** block
               of two lines */
            2: required list<string> f1
            /** block
               of two lines */
            3: required list<string> f2 = 7;
            /** block
               of two lines */
            4: required list<string> f3 = 7
            /** block
               of two lines */
            5: required list<string> f4 = -3;
            /** block
               of two lines */
            6: required list<string> f5 = -3
            /** block
               of two lines */
            7: required list<string> f6 = 2.5;
            /** block
               of two lines */
            8: required list<string> f7 = 2.5
            /** block
               of two lines */
            9: required list<string> f8 = "text";
            /** block
               of two lines */
            10: required list<string> f9 = "text"
            /** block
               of two lines */
            11: required list<string> f10 = true;
            /** block
               of two lines */
            12: required list<string> f11 = true
            /** block
               of two lines */
            13: optional list<string> f12;
            /** block
               of two lines */
            14: optional list<string> f13
            /** block
               of two lines */
            15: optional list<string> f14 = 7;
            /** block
               of two lines */
            16: optional list<string> f15 = 7
            /** block
               of two lines */
            17: optional list<string> f16 = -3;
            /** block
               of two lines */
            18: optional list<string> f17 = -3
            /** block
               of two lines */
            19: optional list<string> f18 = 2.5;
            /** block
               of two lines */
            20: optional list<string> f19 = 2.5
            /** block
               of two lines */
            21: optional list<string> f20 = "text";
            /** block
               of two lines */
            22: optional list<string> f21 = "text"
            /** block
               of two lines */
            23: optional list<string> f22 = true;
            /** block
               of two lines */
            24: optional list<string> f23 = true
        }
        struct Field9 {
            // plain
            1: required list<string> f0;
            // plain
            2: required list<string> f1
            // plain
            3: required list<string> f2 = 7;
            // plain
            4: required list<string> f3 = 7
            // plain
            5: required list<string> f4 = -3;
            // plain
            6: required list<string> f5 = -3
            // plain
            7: required list<string> f6 = 2.5;
            // plain
            8: required list<string> f7 = 2.5
            // plain
            9: required list<string> f8 = "text";
            // plain
            10: required list<string> f9 = "text"
            // plain
            11: required list<string> f10 = true;
            // plain
            12: required list<string> f11 = true
            // plain
            13: optional list<string> f12;
            // plain
            14: optional list<string> f13
            // plain
            15: optional list<string> f14 = 7;
            // plain
            16: optional list<string> f15 = 7
            // plain
            17: optional list<string> f16 = -3;
            // plain
            18: optional list<string> f17 = -3
            // plain
            19: optional list<string> f18 = 2.5;
            // plain
            20: optional list<string> f19 = 2.5
            // plain
            21: optional list<string> f20 = "text";
            // plain
            22: optional list<string> f21 = "text"
            // plain
            23: optional list<string> f22 = true;
            // plain
            24: optional list<string> f23 = true
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field0 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field1 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field2 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field3 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field3 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field4 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field4 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field5 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field5 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field6 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field6 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field7 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field7 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field8 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field8 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call1::Field9 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call1::Field9 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
pub mod call2 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Field10 {
            /* plain block */
            1: required list<string> f0;
            /* plain block */
            2: required list<string> f1
            /* plain block */
            3: required list<string> f2 = 7;
            /* plain block */
            4: required list<string> f3 = 7
            /* plain block */
            5: required list<string> f4 = -3;
            /* plain block */
            6: required list<string> f5 = -3
            /* plain block */
            7: required list<string> f6 = 2.5;
            /* plain block */
            8: required list<string> f7 = 2.5
            /* plain block */
            9: required list<string> f8 = "text";
            /* plain block */
            10: required list<string> f9 = "text"
            /* plain block */
            11: required list<string> f10 = true;
            /* plain block */
            12: required list<string> f11 = true
            /* plain block */
            13: optional list<string> f12;
            /* plain block */
            14: optional list<string> f13
            /* plain block */
            15: optional list<string> f14 = 7;
            /* plain block */
            16: optional list<string> f15 = 7
            /* plain block */
            17: optional list<string> f16 = -3;
            /* plain block */
            18: optional list<string> f17 = -3
            /* plain block */
            19: optional list<string> f18 = 2.5;
            /* plain block */
            20: optional list<string> f19 = 2.5
            /* plain block */
            21: optional list<string> f20 = "text";
            /* plain block */
            22: optional list<string> f21 = "text"
            /* plain block */
            23: optional list<string> f22 = true;
            /* plain block */
            24: optional list<string> f23 = true
        }
        struct Field11 {
            /// first
            /// second
            /** third */
            1: required list<string> f0;
            /// first
            /// second
            /** third */
            2: required list<string> f1
            /// first
            /// second
            /** third */
            3: required list<string> f2 = 7;
            /// first
            /// second
            /** third */
            4: required list<string> f3 = 7
            /// first
            /// second
            /** third */
            5: required list<string> f4 = -3;
            /// first
            /// second
            /** third */
            6: required list<string> f5 = -3
            /// first
            /// second
            /** third */
            7: required list<string> f6 = 2.5;
            /// first
            /// second
            /** third */
            8: required list<string> f7 = 2.5
            /// first
            /// second
            /** third */
            9: required list<string> f8 = "text";
            /// first
            /// second
            /** third */
            10: required list<string> f9 = "text"
            /// first
            /// second
            /** third */
            11: required list<string> f10 = true;
            /// first
            /// second
            /** third */
            12: required list<string> f11 = true
            /// first
            /// second
            /** third */
            13: optional list<string> f12;
            /// first
            /// second
            /** third */
            14: optional list<string> f13
            /// first
            /// second
            /** third */
            15: optional list<string> f14 = 7;
            /// first
            /// second
            /** third */
            16: optional list<string> f15 = 7
            /// first
            /// second
            /** third */
            17: optional list<string> f16 = -3;
            /// first
            /// second
            /** third */
            18: optional list<string> f17 = -3
            /// first
            /// second
            /** third */
            19: optional list<string> f18 = 2.5;
            /// first
            /// second
            /** third */
            20: optional list<string> f19 = 2.5
            /// first
            /// second
            /** third */
            21: optional list<string> f20 = "text";
            /// first
            /// second
            /** third */
            22: optional list<string> f21 = "text"
            /// first
            /// second
            /** third */
            23: optional list<string> f22 = true;
            /// first
            /// second
            /** third */
            24: optional list<string> f23 = true
        }
        struct Field12 {
            1: required Box<Leaf> f0;
            2: required Box<Leaf> f1
            3: required Box<Leaf> f2 = 7;
            4: required Box<Leaf> f3 = 7
            5: required Box<Leaf> f4 = -3;
            6: required Box<Leaf> f5 = -3
            7: required Box<Leaf> f6 = 2.5;
            8: required Box<Leaf> f7 = 2.5
            9: required Box<Leaf> f8 = "text";
            10: required Box<Leaf> f9 = "text"
            11: required Box<Leaf> f10 = true;
            12: required Box<Leaf> f11 = true
            13: optional Box<Leaf> f12;
            14: optional Box<Leaf> f13
            15: optional Box<Leaf> f14 = 7;
            16: optional Box<Leaf> f15 = 7
            17: optional Box<Leaf> f16 = -3;
            18: optional Box<Leaf> f17 = -3
            19: optional Box<Leaf> f18 = 2.5;
            20: optional Box<Leaf> f19 = 2.5
            21: optional Box<Leaf> f20 = "text";
            22: optional Box<Leaf> f21 = "text"
            23: optional Box<Leaf> f22 = true;
            24: optional Box<Leaf> f23 = true
        }
        struct Field13 {
            /// one line
            1: required Box<Leaf> f0;
            /// one line
            2: required Box<Leaf> f1
            /// one line
            3: required Box<Leaf> f2 = 7;
            /// one line
            4: required Box<Leaf> f3 = 7
            /// one line
            5: required Box<Leaf> f4 = -3;
            /// one line
            6: required Box<Leaf> f5 = -3
            /// one line
            7: required Box<Leaf> f6 = 2.5;
            /// one line
            8: required Box<Leaf> f7 = 2.5
            /// one line
            9: required Box<Leaf> f8 = "text";
            /// one line
            10: required Box<Leaf> f9 = "text"
            /// one line
            11: required Box<Leaf> f10 = true;
            /// one line
            12: required Box<Leaf> f11 = true
            /// one line
            13: optional Box<Leaf> f12;
            /// one line
            14: optional Box<Leaf> f13
            /// one line
            15: optional Box<Leaf> f14 = 7;
            /// one line
            16: optional Box<Leaf> f15 = 7
            /// one line
            17: optional Box<Leaf> f16 = -3;
            /// one line
            18: optional Box<Leaf> f17 = -3
            /// one line
            19: optional Box<Leaf> f18 = 2.5;
            /// one line
            20: optional Box<Leaf> f19 = 2.5
            /// one line
            21: optional Box<Leaf> f20 = "text";
            /// one line
            22: optional Box<Leaf> f21 = "text"
            /// one line
            23: optional Box<Leaf> f22 = true;
            /// one line
            24: optional Box<Leaf> f23 = true
        }
        struct Field14 {
            /** block
               of two lines */
            1: required Box<Leaf> f0;
            /** block
               of two lines */
            2: required Box<Leaf> f1
            /** block
               of two lines */
            3: required Box<Leaf> f2 = 7;
            /** block
               of two lines */
            4: required Box<Leaf> f3 = 7
            /** block
               of two lines */
            5: required Box<Leaf> f4 = -3;
            /** block
               of two lines */
            6: required Box<Leaf> f5 = -3
            /** block
               of two lines */
            7: required Box<Leaf> f6 = 2.5;
            /** block
               of two lines */
            8: required Box<Leaf> f7 = 2.5
            /** block
               of two lines */
            9: required Box<Leaf> f8 = "text";
            /** block
               of two lines */
            10: required Box<Leaf> f9 = "text"
            /** block
               of two lines */
            11: required Box<Leaf> f10 = true;
            /** block
               of two lines */
            12: required Box<Leaf> f11 = true
            /** block
               of two lines */
            13: optional Box<Leaf> f12;
            /** block
               of two lines */
            14: optional Box<Leaf> f13
            /** block
               of two lines */
            15: optional Box<Leaf> f14 = 7;
            /** block
               of two lines */
            16: optional Box<Leaf> f15 = 7
            /** block
               of two lines */
            17: optional Box<Leaf> f16 = -3;
            /** block
               of two lines */
            18: optional Box<Leaf> f17 = -3
            /** block
               of two lines */
            19: optional Box<Leaf> f18 = 2.5;
            /** block
               of two lines */
            20: optional Box<Leaf> f19 = 2.5
            /** block
               of two lines */
            21: optional Box<Leaf> f20 = "text";
            /** block
               of two lines */
            22: optional Box<Leaf> f21 = "text"
            /** block
               of two lines */
            23: optional Box<Leaf> f22 = true;
            /** block
               of two lines */
            24: optional Box<Leaf> f23 = true
        }
        struct Field15 {
            // plain
            1: required Box<Leaf> f0;
            // plain
            2: required Box<Leaf> f1
            // plain
            3: required Box<Leaf> f2 = 7;
            // plain
            4: required Box<Leaf> f3 = 7
            // plain
            5: required Box<Leaf> f4 = -3;
            // plain
            6: required Box<Leaf> f5 = -3
            // plain
            7: required Box<Leaf> f6 = 2.5;
            // plain
            8: required Box<Leaf> f7 = 2.5
            // plain
            9: required Box<Leaf> f8 = "text";
            // plain
            10: required Box<Leaf> f9 = "text"
            // plain
            11: required Box<Leaf> f10 = true;
            // plain
            12: required Box<Leaf> f11 = true
            // plain
            13: optional Box<Leaf> f12;
            // plain
            14: optional Box<Leaf> f13
            // plain
            15: optional Box<Leaf> f14 = 7;
            // plain
            16: optional Box<Leaf> f15 = 7
            // plain
            17: optional Box<Leaf> f16 = -3;
            // plain
            18: optional Box<Leaf> f17 = -3
            // plain
            19: optional Box<Leaf> f18 = 2.5;
            // plain
            20: optional Box<Leaf> f19 = 2.5
            // plain
            21: optional Box<Leaf> f20 = "text";
            // plain
            22: optional Box<Leaf> f21 = "text"
            // plain
            23: optional Box<Leaf> f22 = true;
            // plain
            24: optional Box<Leaf> f23 = true
        }
        struct Field16 {
            /* plain block */
            1: required Box<Leaf> f0;
            /* plain block */
            2: required Box<Leaf> f1
            /* plain block */
            3: required Box<Leaf> f2 = 7;
            /* plain block */
            4: required Box<Leaf> f3 = 7
            /* plain block */
            5: required Box<Leaf> f4 = -3;
            /* plain block */
            6: required Box<Leaf> f5 = -3
            /* plain block */
            7: required Box<Leaf> f6 = 2.5;
            /* plain block */
            8: required Box<Leaf> f7 = 2.5
            /* plain block */
            9: required Box<Leaf> f8 = "text";
            /* plain block */
            10: required Box<Leaf> f9 = "text"
            /* plain block */
            11: required Box<Leaf> f10 = true;
            /* plain block */
            12: required Box<Leaf> f11 = true
            /* plain block */
            13: optional Box<Leaf> f12;
            /* plain block */
            14: optional Box<Leaf> f13
            /* plain block */
            15: optional Box<Leaf> f14 = 7;
            /* plain block */
            16: optional Box<Leaf> f15 = 7
            /* plain block */
            17: optional Box<Leaf> f16 = -3;
            /* plain block */
            18: optional Box<Leaf> f17 = -3
            /* plain block */
            19: optional Box<Leaf> f18 = 2.5;
            /* plain block */
            20: optional Box<Leaf> f19 = 2.5
            /* plain block */
            21: optional Box<Leaf> f20 = "text";
            /* plain block */
            22: optional Box<Leaf> f21 = "text"
            /* plain block */
            23: optional Box<Leaf> f22 = true;
            /* plain block */
            24: optional Box<Leaf> f23 = true
        }
        struct Field17 {
            /// first
            /// second
            /** third */
            1: required Box<Leaf> f0;
            /// first
            /// second
            /** third */
            2: required Box<Leaf> f1
            /// first
            /// second
            /** third */
            3: required Box<Leaf> f2 = 7;
            /// first
            /// second
            /** third */
            4: required Box<Leaf> f3 = 7
            /// first
            /// second
            /** third */
            5: required Box<Leaf> f4 = -3;
            /// first
            /// second
            /** third */
            6: required Box<Leaf> f5 = -3
            /// first
            /// second
            /** third */
            7: required Box<Leaf> f6 = 2.5;
            /// first
            /// second
            /** third */
            8: required Box<Leaf> f7 = 2.5
            /// first
            /// second
            /** third */
            9: required Box<Leaf> f8 = "text";
            /// first
            /// second
            /** third */
            10: required Box<Leaf> f9 = "text"
            /// first
            /// second
            /** third */
            11: required Box<Leaf> f10 = true;
            /// first
            /// second
            /** third */
            12: required Box<Leaf> f11 = true
            /// first
            /// second
            /** third */
            13: optional Box<Leaf> f12;
            /// first
            /// second
            /** third */
            14: optional Box<Leaf> f13
            /// first
            /// second
            /** third */
            15: optional Box<Leaf> f14 = 7;
            /// first
            /// second
            /** third */
            16: optional Box<Leaf> f15 = 7
            /// first
            /// second
            /** third */
            17: optional Box<Leaf> f16 = -3;
            /// first
            /// second
            /** third */
            18: optional Box<Leaf> f17 = -3
            /// first
            /// second
            /** third */
            19: optional Box<Leaf> f18 = 2.5;
            /// first
            /// second
            /** third */
            20: optional Box<Leaf> f19 = 2.5
            /// first
            /// second
            /** third */
            21: optional Box<Leaf> f20 = "text";
            /// first
            /// second
            /** third */
            22: optional Box<Leaf> f21 = "text"
            /// first
            /// second
            /** third */
            23: optional Box<Leaf> f22 = true;
            /// first
            /// second
            /** third */
            24: optional Box<Leaf> f23 = true
        }
        struct Field18 {
            1: required bool f0;
            2: required bool f1
            3: required bool f2 = 7;
            4: required bool f3 = 7
            5: optional bool f4;
            6: optional bool f5
            7: optional bool f6 = 7;
            8: optional bool f7 = 7
            /// one line
            9: required bool f8;
            /// one line
            10: required bool f9
            /// one line
            11: required bool f10 = 7;
            /// one line
            12: required bool f11 = 7
            /// one line
            13: optional bool f12;
            /// one line
            14: optional bool f13
            /// one line
            15: optional bool f14 = 7;
            /// one line
            16: optional bool f15 = 7
            17: required byte f16;
            18: required byte f17
            19: required byte f18 = 7;
            20: required byte f19 = 7
            21: optional byte f20;
            22: optional byte f21
            23: optional byte f22 = 7;
            24: optional byte f23 = 7
        }
        struct Field19 {
            /// one line
            1: required byte f0;
            /// one line
            2: required byte f1
            /// one line
            3: required byte f2 = 7;
            /// one line
            4: required byte f3 = 7
            /// one line
            5: optional byte f4;
            /// one line
            6: optional byte f5
            /// one line
            7: optional byte f6 = 7;
            /// one line
            8: optional byte f7 = 7
            9: required i8 f8;
            10: required i8 f9
            11: required i8 f10 = 7;
            12: required i8 f11 = 7
            13: optional i8 f12;
            14: optional i8 f13
            15: optional i8 f14 = 7;
            16: optional i8 f15 = 7
            /// one line
            17: required i8 f16;
            /// one line
            18: required i8 f17
            /// one line
            19: required i8 f18 = 7;
            /// one line
            20: required i8 f19 = 7
            /// one line
            21: optional i8 f20;
            /// one line
            22: optional i8 f21
            /// one line
            23: optional i8 f22 = 7;
            /// one line
            24: optional i8 f23 = 7
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field10 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field10 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field11 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field11 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field12 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field12 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field13 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field14 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field14 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field15 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field15 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field16 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field16 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field17 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field17 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field18 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field18 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call2::Field19 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call2::Field19 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
pub mod call3 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Field20 {
            1: required i16 f0;
            2: required i16 f1
            3: required i16 f2 = 7;
            4: required i16 f3 = 7
            5: optional i16 f4;
            6: optional i16 f5
            7: optional i16 f6 = 7;
            8: optional i16 f7 = 7
            /// one line
            9: required i16 f8;
            /// one line
            10: required i16 f9
            /// one line
            11: required i16 f10 = 7;
            /// one line
            12: required i16 f11 = 7
            /// one line
            13: optional i16 f12;
            /// one line
            14: optional i16 f13
            /// one line
            15: optional i16 f14 = 7;
            /// one line
            16: optional i16 f15 = 7
            17: required i32 f16;
            18: required i32 f17
            19: required i32 f18 = 7;
            20: required i32 f19 = 7
            21: optional i32 f20;
            22: optional i32 f21
            23: optional i32 f22 = 7;
            24: optional i32 f23 = 7
        }
        struct Field21 {
            /// one line
            1: required i32 f0;
            /// one line
            2: required i32 f1
            /// one line
            3: required i32 f2 = 7;
            /// one line
            4: required i32 f3 = 7
            /// one line
            5: optional i32 f4;
            /// one line
            6: optional i32 f5
            /// one line
            7: optional i32 f6 = 7;
            /// one line
            8: optional i32 f7 = 7
            9: required i64 f8;
            10: required i64 f9
            11: required i64 f10 = 7;
            12: required i64 f11 = 7
            13: optional i64 f12;
            14: optional i64 f13
            15: optional i64 f14 = 7;
            16: optional i64 f15 = 7
            /// one line
            17: required i64 f16;
            /// one line
            18: required i64 f17
            /// one line
            19: required i64 f18 = 7;
            /// one line
            20: required i64 f19 = 7
            /// one line
            21: optional i64 f20;
            /// one line
            22: optional i64 f21
            /// one line
            23: optional i64 f22 = 7;
            /// one line
            24: optional i64 f23 = 7
        }
        struct Field22 {
            1: required double f0;
            2: required double f1
            3: required double f2 = 7;
            4: required double f3 = 7
            5: optional double f4;
            6: optional double f5
            7: optional double f6 = 7;
            8: optional double f7 = 7
            /// one line
            9: required double f8;
            /// one line
            10: required double f9
            /// one line
            11: required double f10 = 7;
            /// one line
            12: required double f11 = 7
            /// one line
            13: optional double f12;
            /// one line
            14: optional double f13
            /// one line
            15: optional double f14 = 7;
            /// one line
            16: optional double f15 = 7
            17: required string f16;
            18: required string f17
            19: required string f18 = 7;
            20: required string f19 = 7
            21: optional string f20;
            22: optional string f21
            23: optional string f22 = 7;
            24: optional string f23 = 7
        }
        struct Field23 {
            /// one line
            1: required string f0;
            /// one line
            2: required string f1
            /// one line
            3: required string f2 = 7;
            /// one line
            4: required string f3 = 7
            /// one line
            5: optional string f4;
            /// one line
            6: optional string f5
            /// one line
            7: optional string f6 = 7;
            /// one line
            8: optional string f7 = 7
            9: required String f8;
            10: required String f9
            11: required String f10 = 7;
            12: required String f11 = 7
            13: optional String f12;
            14: optional String f13
            15: optional String f14 = 7;
            16: optional String f15 = 7
            /// one line
            17: required String f16;
            /// one line
            18: required String f17
            /// one line
            19: required String f18 = 7;
            /// one line
            20: required String f19 = 7
            /// one line
            21: optional String f20;
            /// one line
            22: optional String f21
            /// one line
            23: optional String f22 = 7;
            /// one line
            24: optional String f23 = 7
        }
        struct Field24 {
            1: required binary f0;
            2: required binary f1
            3: required binary f2 = 7;
            4: required binary f3 = 7
            5: optional binary f4;
            6: optional binary f5
            7: optional binary f6 = 7;
            8: optional binary f7 = 7
            /// one line
            9: required binary f8;
            /// one line
            10: required binary f9
            /// one line
            11: required binary f10 = 7;
            /// one line
            12: required binary f11 = 7
            /// one line
            13: optional binary f12;
            /// one line
            14: optional binary f13
            /// one line
            15: optional binary f14 = 7;
            /// one line
            16: optional binary f15 = 7
            17: required Leaf f16;
            18: required Leaf f17
            19: required Leaf f18 = 7;
            20: required Leaf f19 = 7
            21: optional Leaf f20;
            22: optional Leaf f21
            23: optional Leaf f22 = 7;
            24: optional Leaf f23 = 7
        }
        struct Field25 {
            /// one line
            1: required Leaf f0;
            /// one line
            2: required Leaf f1
            /// one line
            3: required Leaf f2 = 7;
            /// one line
            4: required Leaf f3 = 7
            /// one line
            5: optional Leaf f4;
            /// one line
            6: optional Leaf f5
            /// one line
            7: optional Leaf f6 = 7;
            /// one line
            8: optional Leaf f7 = 7
            9: required Fork f8;
            10: required Fork f9
            11: required Fork f10 = 7;
            12: required Fork f11 = 7
            13: optional Fork f12;
            14: optional Fork f13
            15: optional Fork f14 = 7;
            16: optional Fork f15 = 7
            /// one line
            17: required Fork f16;
            /// one line
            18: required Fork f17
            /// one line
            19: required Fork f18 = 7;
            /// one line
            20: required Fork f19 = 7
            /// one line
            21: optional Fork f20;
            /// one line
            22: optional Fork f21
            /// one line
            23: optional Fork f22 = 7;
            /// one line
            24: optional Fork f23 = 7
        }
        struct Field26 {
            1: required Tone f0;
            2: required Tone f1
            3: required Tone f2 = 7;
            4: required Tone f3 = 7
            5: optional Tone f4;
            6: optional Tone f5
            7: optional Tone f6 = 7;
            8: optional Tone f7 = 7
            /// one line
            9: required Tone f8;
            /// one line
            10: required Tone f9
            /// one line
            11: required Tone f10 = 7;
            /// one line
            12: required Tone f11 = 7
            /// one line
            13: optional Tone f12;
            /// one line
            14: optional Tone f13
            /// one line
            15: optional Tone f14 = 7;
            /// one line
            16: optional Tone f15 = 7
            17: required list<bool> f16;
            18: required list<bool> f17
            19: required list<bool> f18 = 7;
            20: required list<bool> f19 = 7
            21: optional list<bool> f20;
            22: optional list<bool> f21
            23: optional list<bool> f22 = 7;
            24: optional list<bool> f23 = 7
        }
        struct Field27 {
            /// one line
            1: required list<bool> f0;
            /// one line
            2: required list<bool> f1
            /// one line
            3: required list<bool> f2 = 7;
            /// one line
            4: required list<bool> f3 = 7
            /// one line
            5: optional list<bool> f4;
            /// one line
            6: optional list<bool> f5
            /// one line
            7: optional list<bool> f6 = 7;
            /// one line
            8: optional list<bool> f7 = 7
            9: required list<byte> f8;
            10: required list<byte> f9
            11: required list<byte> f10 = 7;
            12: required list<byte> f11 = 7
            13: optional list<byte> f12;
            14: optional list<byte> f13
            15: optional list<byte> f14 = 7;
            16: optional list<byte> f15 = 7
            /// one line
            17: required list<byte> f16;
            /// one line
            18: required list<byte> f17
            /// one line
            19: required list<byte> f18 = 7;
            /// one line
            20: required list<byte> f19 = 7
            /// one line
            21: optional list<byte> f20;
            /// one line
            22: optional list<byte> f21
            /// one line
            23: optional list<byte> f22 = 7;
            /// one line
            24: optional list<byte> f23 = 7
        }
        struct Field28 {
            1: required list<i8> f0;
            2: required list<i8> f1
            3: required list<i8> f2 = 7;
            4: required list<i8> f3 = 7
            5: optional list<i8> f4;
            6: optional list<i8> f5
            7: optional list<i8> f6 = 7;
            8: optional list<i8> f7 = 7
            /// one line
            9: required list<i8> f8;
            /// one line
            10: required list<i8> f9
            /// one line
            11: required list<i8> f10 = 7;
            /// one line
            12: required list<i8> f11 = 7
            /// one line
            13: optional list<i8> f12;
            /// one line
            14: optional list<i8> f13
            /// one line
            15: optional list<i8> f14 = 7;
            /// one line
            16: optional list<i8> f15 = 7
            17: required list<i16> f16;
            18: required list<i16> f17
            19: required list<i16> f18 = 7;
            20: required list<i16> f19 = 7
            21: optional list<i16> f20;
            22: optional list<i16> f21
            23: optional list<i16> f22 = 7;
            24: optional list<i16> f23 = 7
        }
        struct Field29 {
            /// one line
            1: required list<i16> f0;
            /// one line
            2: required list<i16> f1
            /// one line
            3: required list<i16> f2 = 7;
            /// one line
            4: required list<i16> f3 = 7
            /// one line
            5: optional list<i16> f4;
            /// one line
            6: optional list<i16> f5
            /// one line
            7: optional list<i16> f6 = 7;
            /// one line
            8: optional list<i16> f7 = 7
            9: required list<i32> f8;
            10: required list<i32> f9
            11: required list<i32> f10 = 7;
            12: required list<i32> f11 = 7
            13: optional list<i32> f12;
            14: optional list<i32> f13
            15: optional list<i32> f14 = 7;
            16: optional list<i32> f15 = 7
            /// one line
            17: required list<i32> f16;
            /// one line
            18: required list<i32> f17
            /// one line
            19: required list<i32> f18 = 7;
            /// one line
            20: required list<i32> f19 = 7
            /// one line
            21: optional list<i32> f20;
            /// one line
            22: optional list<i32> f21
            /// one line
            23: optional list<i32> f22 = 7;
            /// one line
            24: optional list<i32> f23 = 7
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field20 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field20 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field21 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field21 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field22 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field22 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field23 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field23 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field24 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field24 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field25 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field25 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field26 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field27 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field27 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field28 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field28 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call3::Field29 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call3::Field29 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
pub mod call4 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Field30 {
            1: required list<i64> f0;
            2: required list<i64> f1
            3: required list<i64> f2 = 7;
            4: required list<i64> f3 = 7
            5: optional list<i64> f4;
            6: optional list<i64> f5
            7: optional list<i64> f6 = 7;
            8: optional list<i64> f7 = 7
            /// one line
            9: required list<i64> f8;
            /// one line
            10: required list<i64> f9
            /// one line
            11: required list<i64> f10 = 7;
            /// one line
            12: required list<i64> f11 = 7
            /// one line
            13: optional list<i64> f12;
            /// one line
            14: optional list<i64> f13
            /// one line
            15: optional list<i64> f14 = 7;
            /// one line
            16: optional list<i64> f15 = 7
            17: required list<double> f16;
            18: required list<double> f17
            19: required list<double> f18 = 7;
            20: required list<double> f19 = 7
            21: optional list<double> f20;
            22: optional list<double> f21
            23: optional list<double> f22 = 7;
            24: optional list<double> f23 = 7
        }
        struct Field31 {
            /// one line
            1: required list<double> f0;
            /// one line
            2: required list<double> f1
            /// one line
            3: required list<double> f2 = 7;
            /// one line
            4: required list<double> f3 = 7
            /// one line
            5: optional list<double> f4;
            /// one line
            6: optional list<double> f5
            /// one line
            7: optional list<double> f6 = 7;
            /// one line
            8: optional list<double> f7 = 7
            9: required list<string> f8;
            10: required list<string> f9
            11: required list<string> f10 = 7;
            12: required list<string> f11 = 7
            13: optional list<string> f12;
            14: optional list<string> f13
            15: optional list<string> f14 = 7;
            16: optional list<string> f15 = 7
            /// one line
            17: required list<string> f16;
            /// one line
            18: required list<string> f17
            /// one line
            19: required list<string> f18 = 7;
            /// one line
            20: required list<string> f19 = 7
            /// one line
            21: optional list<string> f20;
            /// one line
            22: optional list<string> f21
            /// one line
            23: optional list<string> f22 = 7;
            /// one line
            24: optional list<string> f23 = 7
        }
        struct Field32 {
            1: required list<binary> f0;
            2: required list<binary> f1
            3: required list<binary> f2 = 7;
            4: required list<binary> f3 = 7
            5: optional list<binary> f4;
            6: optional list<binary> f5
            7: optional list<binary> f6 = 7;
            8: optional list<binary> f7 = 7
            /// one line
            9: required list<binary> f8;
            /// one line
            10: required list<binary> f9
            /// one line
            11: required list<binary> f10 = 7;
            /// one line
            12: required list<binary> f11 = 7
            /// one line
            13: optional list<binary> f12;
            /// one line
            14: optional list<binary> f13
            /// one line
            15: optional list<binary> f14 = 7;
            /// one line
            16: optional list<binary> f15 = 7
            17: required list<Leaf> f16;
            18: required list<Leaf> f17
            19: required list<Leaf> f18 = 7;
            20: required list<Leaf> f19 = 7
            21: optional list<Leaf> f20;
            22: optional list<Leaf> f21
            23: optional list<Leaf> f22 = 7;
            24: optional list<Leaf> f23 = 7
        }
        struct Field33 {
            /// one line
            1: required list<Leaf> f0;
            /// one line
            2: required list<Leaf> f1
            /// one line
            3: required list<Leaf> f2 = 7;
            /// one line
            4: required list<Leaf> f3 = 7
            /// one line
            5: optional list<Leaf> f4;
            /// one line
            6: optional list<Leaf> f5
            /// one line
            7: optional list<Leaf> f6 = 7;
            /// one line
            8: optional list<Leaf> f7 = 7
            9: required list<Fork> f8;
            10: required list<Fork> f9
            11: required list<Fork> f10 = 7;
            12: required list<Fork> f11 = 7
            13: optional list<Fork> f12;
            14: optional list<Fork> f13
            15: optional list<Fork> f14 = 7;
            16: optional list<Fork> f15 = 7
            /// one line
            17: required list<Fork> f16;
            /// one line
            18: required list<Fork> f17
            /// one line
            19: required list<Fork> f18 = 7;
            /// one line
            20: required list<Fork> f19 = 7
            /// one line
            21: optional list<Fork> f20;
            /// one line
            22: optional list<Fork> f21
            /// one line
            23: optional list<Fork> f22 = 7;
            /// one line
            24: optional list<Fork> f23 = 7
        }
        struct Field34 {
            1: required list<Tone> f0;
            2: required list<Tone> f1
            3: required list<Tone> f2 = 7;
            4: required list<Tone> f3 = 7
            5: optional list<Tone> f4;
            6: optional list<Tone> f5
            7: optional list<Tone> f6 = 7;
            8: optional list<Tone> f7 = 7
            /// one line
            9: required list<Tone> f8;
            /// one line
            10: required list<Tone> f9
            /// one line
            11: required list<Tone> f10 = 7;
            /// one line
            12: required list<Tone> f11 = 7
            /// one line
            13: optional list<Tone> f12;
            /// one line
            14: optional list<Tone> f13
            /// one line
            15: optional list<Tone> f14 = 7;
            /// one line
            16: optional list<Tone> f15 = 7
            17: required Box<i32> f16;
            18: required Box<i32> f17
            19: required Box<i32> f18 = 7;
            20: required Box<i32> f19 = 7
            21: optional Box<i32> f20;
            22: optional Box<i32> f21
            23: optional Box<i32> f22 = 7;
            24: optional Box<i32> f23 = 7
        }
        struct Field35 {
            /// one line
            1: required Box<i32> f0;
            /// one line
            2: required Box<i32> f1
            /// one line
            3: required Box<i32> f2 = 7;
            /// one line
            4: required Box<i32> f3 = 7
            /// one line
            5: optional Box<i32> f4;
            /// one line
            6: optional Box<i32> f5
            /// one line
            7: optional Box<i32> f6 = 7;
            /// one line
            8: optional Box<i32> f7 = 7
            9: required Box<bool> f8;
            10: required Box<bool> f9
            11: required Box<bool> f10 = 7;
            12: required Box<bool> f11 = 7
            13: optional Box<bool> f12;
            14: optional Box<bool> f13
            15: optional Box<bool> f14 = 7;
            16: optional Box<bool> f15 = 7
            /// one line
            17: required Box<bool> f16;
            /// one line
            18: required Box<bool> f17
            /// one line
            19: required Box<bool> f18 = 7;
            /// one line
            20: required Box<bool> f19 = 7
            /// one line
            21: optional Box<bool> f20;
            /// one line
            22: optional Box<bool> f21
            /// one line
            23: optional Box<bool> f22 = 7;
            /// one line
            24: optional Box<bool> f23 = 7
        }
        struct Field36 {
            1: required Box<Leaf> f0;
            2: required Box<Leaf> f1
            3: required Box<Leaf> f2 = 7;
            4: required Box<Leaf> f3 = 7
            5: optional Box<Leaf> f4;
            6: optional Box<Leaf> f5
            7: optional Box<Leaf> f6 = 7;
            8: optional Box<Leaf> f7 = 7
            /// one line
            9: required Box<Leaf> f8;
            /// one line
            10: required Box<Leaf> f9
            /// one line
            11: required Box<Leaf> f10 = 7;
            /// one line
            12: required Box<Leaf> f11 = 7
            /// one line
            13: optional Box<Leaf> f12;
            /// one line
            14: optional Box<Leaf> f13
            /// one line
            15: optional Box<Leaf> f14 = 7;
            /// one line
            16: optional Box<Leaf> f15 = 7
            17: required Box<string> f16;
            18: required Box<string> f17
            19: required Box<string> f18 = 7;
            20: required Box<string> f19 = 7
            21: optional Box<string> f20;
            22: optional Box<string> f21
            23: optional Box<string> f22 = 7;
            24: optional Box<string> f23 = 7
        }
        struct Field37 {
            /// one line
            1: required Box<string> f0;
            /// one line
            2: required Box<string> f1
            /// one line
            3: required Box<string> f2 = 7;
            /// one line
            4: required Box<string> f3 = 7
            /// one line
            5: optional Box<string> f4;
            /// one line
            6: optional Box<string> f5
            /// one line
            7: optional Box<string> f6 = 7;
            /// one line
            8: optional Box<string> f7 = 7
            9: required Box<str> f8;
            10: required Box<str> f9
            11: required Box<str> f10 = 7;
            12: required Box<str> f11 = 7
            13: optional Box<str> f12;
            14: optional Box<str> f13
            15: optional Box<str> f14 = 7;
            16: optional Box<str> f15 = 7
            /// one line
            17: required Box<str> f16;
            /// one line
            18: required Box<str> f17
            /// one line
            19: required Box<str> f18 = 7;
            /// one line
            20: required Box<str> f19 = 7
            /// one line
            21: optional Box<str> f20;
            /// one line
            22: optional Box<str> f21
            /// one line
            23: optional Box<str> f22 = 7;
            /// one line
            24: optional Box<str> f23 = 7
        }
        struct Field38 {
            1: required Box<Fork> f0;
            2: required Box<Fork> f1
            3: required Box<Fork> f2 = 7;
            4: required Box<Fork> f3 = 7
            5: optional Box<Fork> f4;
            6: optional Box<Fork> f5
            7: optional Box<Fork> f6 = 7;
            8: optional Box<Fork> f7 = 7
            /// one line
            9: required Box<Fork> f8;
            /// one line
            10: required Box<Fork> f9
            /// one line
            11: required Box<Fork> f10 = 7;
            /// one line
            12: required Box<Fork> f11 = 7
            /// one line
            13: optional Box<Fork> f12;
            /// one line
            14: optional Box<Fork> f13
            /// one line
            15: optional Box<Fork> f14 = 7;
            /// one line
            16: optional Box<Fork> f15 = 7
            17: required Rc<string> f16;
            18: required Rc<string> f17
            19: required Rc<string> f18 = 7;
            20: required Rc<string> f19 = 7
            21: optional Rc<string> f20;
            22: optional Rc<string> f21
            23: optional Rc<string> f22 = 7;
            24: optional Rc<string> f23 = 7
        }
        struct Field39 {
            /// one line
            1: required Rc<string> f0;
            /// one line
            2: required Rc<string> f1
            /// one line
            3: required Rc<string> f2 = 7;
            /// one line
            4: required Rc<string> f3 = 7
            /// one line
            5: optional Rc<string> f4;
            /// one line
            6: optional Rc<string> f5
            /// one line
            7: optional Rc<string> f6 = 7;
            /// one line
            8: optional Rc<string> f7 = 7
            9: required Rc<str> f8;
            10: required Rc<str> f9
            11: required Rc<str> f10 = 7;
            12: required Rc<str> f11 = 7
            13: optional Rc<str> f12;
            14: optional Rc<str> f13
            15: optional Rc<str> f14 = 7;
            16: optional Rc<str> f15 = 7
            /// one line
            17: required Rc<str> f16;
            /// one line
            18: required Rc<str> f17
            /// one line
            19: required Rc<str> f18 = 7;
            /// one line
            20: required Rc<str> f19 = 7
            /// one line
            21: optional Rc<str> f20;
            /// one line
            22: optional Rc<str> f21
            /// one line
            23: optional Rc<str> f22 = 7;
            /// one line
            24: optional Rc<str> f23 = 7
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field30 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field30 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field31 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field31 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field32 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field32 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field33 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field33 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field34 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field34 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field35 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field35 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field36 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field36 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field37 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field37 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field38 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field38 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call4::Field39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call4::Field39 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
pub mod call5 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Field40 {
            1: required Rc<Leaf> f0;
            2: required Rc<Leaf> f1
            3: required Rc<Leaf> f2 = 7;
            4: required Rc<Leaf> f3 = 7
            5: optional Rc<Leaf> f4;
            6: optional Rc<Leaf> f5
            7: optional Rc<Leaf> f6 = 7;
            8: optional Rc<Leaf> f7 = 7
            /// one line
            9: required Rc<Leaf> f8;
            /// one line
            10: required Rc<Leaf> f9
            /// one line
            11: required Rc<Leaf> f10 = 7;
            /// one line
            12: required Rc<Leaf> f11 = 7
            /// one line
            13: optional Rc<Leaf> f12;
            /// one line
            14: optional Rc<Leaf> f13
            /// one line
            15: optional Rc<Leaf> f14 = 7;
            /// one line
            16: optional Rc<Leaf> f15 = 7
            17: required Rc<i64> f16;
            18: required Rc<i64> f17
            19: required Rc<i64> f18 = 7;
            20: required Rc<i64> f19 = 7
            21: optional Rc<i64> f20;
            22: optional Rc<i64> f21
            23: optional Rc<i64> f22 = 7;
            24: optional Rc<i64> f23 = 7
        }
        struct Field41 {
            /// one line
            1: required Rc<i64> f0;
            /// one line
            2: required Rc<i64> f1
            /// one line
            3: required Rc<i64> f2 = 7;
            /// one line
            4: required Rc<i64> f3 = 7
            /// one line
            5: optional Rc<i64> f4;
            /// one line
            6: optional Rc<i64> f5
            /// one line
            7: optional Rc<i64> f6 = 7;
            /// one line
            8: optional Rc<i64> f7 = 7
            9: required Rc<double> f8;
            10: required Rc<double> f9
            11: required Rc<double> f10 = 7;
            12: required Rc<double> f11 = 7
            13: optional Rc<double> f12;
            14: optional Rc<double> f13
            15: optional Rc<double> f14 = 7;
            16: optional Rc<double> f15 = 7
            /// one line
            17: required Rc<double> f16;
            /// one line
            18: required Rc<double> f17
            /// one line
            19: required Rc<double> f18 = 7;
            /// one line
            20: required Rc<double> f19 = 7
            /// one line
            21: optional Rc<double> f20;
            /// one line
            22: optional Rc<double> f21
            /// one line
            23: optional Rc<double> f22 = 7;
            /// one line
            24: optional Rc<double> f23 = 7
        }
        struct Field42 {
            1: required Rc<Tone> f0;
            2: required Rc<Tone> f1
            3: required Rc<Tone> f2 = 7;
            4: required Rc<Tone> f3 = 7
            5: optional Rc<Tone> f4;
            6: optional Rc<Tone> f5
            7: optional Rc<Tone> f6 = 7;
            8: optional Rc<Tone> f7 = 7
            /// one line
            9: required Rc<Tone> f8;
            /// one line
            10: required Rc<Tone> f9
            /// one line
            11: required Rc<Tone> f10 = 7;
            /// one line
            12: required Rc<Tone> f11 = 7
            /// one line
            13: optional Rc<Tone> f12;
            /// one line
            14: optional Rc<Tone> f13
            /// one line
            15: optional Rc<Tone> f14 = 7;
            /// one line
            16: optional Rc<Tone> f15 = 7
            17: required Arc<string> f16;
            18: required Arc<string> f17
            19: required Arc<string> f18 = 7;
            20: required Arc<string> f19 = 7
            21: optional Arc<string> f20;
            22: optional Arc<string> f21
            23: optional Arc<string> f22 = 7;
            24: optional Arc<string> f23 = 7
        }
        struct Field43 {
            /// one line
            1: required Arc<string> f0;
            /// one line
            2: required Arc<string> f1
            /// one line
            3: required Arc<string> f2 = 7;
            /// one line
            4: required Arc<string> f3 = 7
            /// one line
            5: optional Arc<string> f4;
            /// one line
            6: optional Arc<string> f5
            /// one line
            7: optional Arc<string> f6 = 7;
            /// one line
            8: optional Arc<string> f7 = 7
            9: required Arc<str> f8;
            10: required Arc<str> f9
            11: required Arc<str> f10 = 7;
            12: required Arc<str> f11 = 7
            13: optional Arc<str> f12;
            14: optional Arc<str> f13
            15: optional Arc<str> f14 = 7;
            16: optional Arc<str> f15 = 7
            /// one line
            17: required Arc<str> f16;
            /// one line
            18: required Arc<str> f17
            /// one line
            19: required Arc<str> f18 = 7;
            /// one line
            20: required Arc<str> f19 = 7
            /// one line
            21: optional Arc<str> f20;
            /// one line
            22: optional Arc<str> f21
            /// one line
            23: optional Arc<str> f22 = 7;
            /// one line
            24: optional Arc<str> f23 = 7
        }
        struct Field44 {
            1: required Arc<Fork> f0;
            2: required Arc<Fork> f1
            3: required Arc<Fork> f2 = 7;
            4: required Arc<Fork> f3 = 7
            5: optional Arc<Fork> f4;
            6: optional Arc<Fork> f5
            7: optional Arc<Fork> f6 = 7;
            8: optional Arc<Fork> f7 = 7
            /// one line
            9: required Arc<Fork> f8;
            /// one line
            10: required Arc<Fork> f9
            /// one line
            11: required Arc<Fork> f10 = 7;
            /// one line
            12: required Arc<Fork> f11 = 7
            /// one line
            13: optional Arc<Fork> f12;
            /// one line
            14: optional Arc<Fork> f13
            /// one line
            15: optional Arc<Fork> f14 = 7;
            /// one line
            16: optional Arc<Fork> f15 = 7
            17: required Arc<binary> f16;
            18: required Arc<binary> f17
            19: required Arc<binary> f18 = 7;
            20: required Arc<binary> f19 = 7
            21: optional Arc<binary> f20;
            22: optional Arc<binary> f21
            23: optional Arc<binary> f22 = 7;
            24: optional Arc<binary> f23 = 7
        }
        struct Field45 {
            /// one line
            1: required Arc<binary> f0;
            /// one line
            2: required Arc<binary> f1
            /// one line
            3: required Arc<binary> f2 = 7;
            /// one line
            4: required Arc<binary> f3 = 7
            /// one line
            5: optional Arc<binary> f4;
            /// one line
            6: optional Arc<binary> f5
            /// one line
            7: optional Arc<binary> f6 = 7;
            /// one line
            8: optional Arc<binary> f7 = 7
            9: required Arc<byte> f8;
            10: required Arc<byte> f9
            11: required Arc<byte> f10 = 7;
            12: required Arc<byte> f11 = 7
            13: optional Arc<byte> f12;
            14: optional Arc<byte> f13
            15: optional Arc<byte> f14 = 7;
            16: optional Arc<byte> f15 = 7
            /// one line
            17: required Arc<byte> f16;
            /// one line
            18: required Arc<byte> f17
            /// one line
            19: required Arc<byte> f18 = 7;
            /// one line
            20: required Arc<byte> f19 = 7
            /// one line
            21: optional Arc<byte> f20;
            /// one line
            22: optional Arc<byte> f21
            /// one line
            23: optional Arc<byte> f22 = 7;
            /// one line
            24: optional Arc<byte> f23 = 7
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field40 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field40 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field41 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field41 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field42 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field42 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field43 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field43 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field44 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field44 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call5::Field45 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call5::Field45 { f0: conv(&f[0]), f1: conv(&f[1]), f2: conv(&f[2]), f3: conv(&f[3]), f4: conv(&f[4]), f5: conv(&f[5]), f6: conv(&f[6]), f7: conv(&f[7]), f8: conv(&f[8]), f9: conv(&f[9]), f10: conv(&f[10]), f11: conv(&f[11]), f12: conv(&f[12]), f13: conv(&f[13]), f14: conv(&f[14]), f15: conv(&f[15]), f16: conv(&f[16]), f17: conv(&f[17]), f18: conv(&f[18]), f19: conv(&f[19]), f20: conv(&f[20]), f21: conv(&f[21]), f22: conv(&f[22]), f23: conv(&f[23]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.f0.to_m(), self.f1.to_m(), self.f2.to_m(), self.f3.to_m(), self.f4.to_m(), self.f5.to_m(), self.f6.to_m(), self.f7.to_m(), self.f8.to_m(), self.f9.to_m(), self.f10.to_m(), self.f11.to_m(), self.f12.to_m(), self.f13.to_m(), self.f14.to_m(), self.f15.to_m(), self.f16.to_m(), self.f17.to_m(), self.f18.to_m(), self.f19.to_m(), self.f20.to_m(), self.f21.to_m(), self.f22.to_m(), self.f23.to_m()]) }
}
pub mod call6 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair0 {
            1: optional list<i32> a;
            2: required Tone b;
        }
        struct Pair1 {
            1: optional list<i32> a;
            2: required Tone b
        }
        struct Pair2 {
            1: optional list<i32> a;
            2: optional Tone b;
        }
        struct Pair3 {
            1: optional list<i32> a;
            2: optional Tone b
        }
        struct Pair4 {
            1: optional list<i32> a;
            /// one line
            2: required Tone b;
        }
        struct Pair5 {
            1: optional list<i32> a;
            /// one line
            2: required Tone b
        }
        struct Pair6 {
            1: optional list<i32> a;
            /// one line
            2: optional Tone b;
        }
        struct Pair7 {
            1: optional list<i32> a;
            /// one line
            2: optional Tone b
        }
        struct Pair8 {
            1: optional list<i32> a;
            /** block
               of two lines */
            2: required Tone b;
        }
        struct Pair9 {
            1: optional list<i32> a;
            /** block
               of two lines */
            2: required Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair0 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair1 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair2 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair3 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair3 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair4 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair4 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair5 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair5 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair6 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair6 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair7 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair7 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair8 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair8 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call6::Pair9 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call6::Pair9 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call7 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair10 {
            1: optional list<i32> a;
            /** block
               of two lines */
            2: optional Tone b;
        }
        struct Pair11 {
            1: optional list<i32> a;
            /** block
               of two lines */
            2: optional Tone b
        }
        struct Pair12 {
            1: optional list<i32> a;
            // plain
            2: required Tone b;
        }
        struct Pair13 {
            1: optional list<i32> a;
            // plain
            2: required Tone b
        }
        struct Pair14 {
            1: optional list<i32> a;
            // plain
            2: optional Tone b;
        }
        struct Pair15 {
            1: optional list<i32> a;
            // plain
            2: optional Tone b
        }
        struct Pair16 {
            1: optional list<i32> a;
            /* plain block */
            2: required Tone b;
        }
        struct Pair17 {
            1: optional list<i32> a;
            /* plain block */
            2: required Tone b
        }
        struct Pair18 {
            1: optional list<i32> a;
            /* plain block */
            2: optional Tone b;
        }
        struct Pair19 {
            1: optional list<i32> a;
            /* plain block */
            2: optional Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair10 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair10 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair11 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair11 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair12 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair12 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair13 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair14 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair14 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair15 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair15 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair16 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair16 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair17 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair17 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair18 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair18 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call7::Pair19 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call7::Pair19 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call8 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair20 {
            1: optional list<i32> a;
            /// first
            /// second
            /** third */
            2: required Tone b;
        }
        struct Pair21 {
            1: optional list<i32> a;
            /// first
            /// second
            /** third */
            2: required Tone b
        }
        struct Pair22 {
            1: optional list<i32> a;
            /// first
            /// second
            /** third */
            2: optional Tone b;
        }
        struct Pair23 {
            1: optional list<i32> a;
            /// first
            /// second
            /** third */
            2: optional Tone b
        }
        struct Pair24 {
            1: optional list<i32> a
            2: required Tone b;
        }
        struct Pair25 {
            1: optional list<i32> a
            2: required Tone b
        }
        struct Pair26 {
            1: optional list<i32> a
            2: optional Tone b;
        }
        struct Pair27 {
            1: optional list<i32> a
            2: optional Tone b
        }
        struct Pair28 {
            1: optional list<i32> a
            /// one line
            2: required Tone b;
        }
        struct Pair29 {
            1: optional list<i32> a
            /// one line
            2: required Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair20 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair20 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair21 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair21 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair22 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair22 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair23 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair23 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair24 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair24 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair25 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair25 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair26 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair27 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair27 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair28 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair28 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call8::Pair29 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call8::Pair29 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call9 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair30 {
            1: optional list<i32> a
            /// one line
            2: optional Tone b;
        }
        struct Pair31 {
            1: optional list<i32> a
            /// one line
            2: optional Tone b
        }
        struct Pair32 {
            1: optional list<i32> a
            /** block
               of two lines */
            2: required Tone b;
        }
        struct Pair33 {
            1: optional list<i32> a
            /** block
               of two lines */
            2: required Tone b
        }
        struct Pair34 {
            1: optional list<i32> a
            /** block
               of two lines */
            2: optional Tone b;
        }
        struct Pair35 {
            1: optional list<i32> a
            /** block
               of two lines */
            2: optional Tone b
        }
        struct Pair36 {
            1: optional list<i32> a
            // plain
            2: required Tone b;
        }
        struct Pair37 {
            1: optional list<i32> a
            // plain
            2: required Tone b
        }
        struct Pair38 {
            1: optional list<i32> a
            // plain
            2: optional Tone b;
        }
        struct Pair39 {
            1: optional list<i32> a
            // plain
            2: optional Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair30 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair30 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair31 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair31 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair32 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair32 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair33 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair33 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair34 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair34 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair35 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair35 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair36 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair36 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair37 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair37 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair38 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair38 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call9::Pair39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call9::Pair39 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call10 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair40 {
            1: optional list<i32> a
            /* plain block */
            2: required Tone b;
        }
        struct Pair41 {
            1: optional list<i32> a
            /* plain block */
            2: required Tone b
        }
        struct Pair42 {
            1: optional list<i32> a
            /* plain block */
            2: optional Tone b;
        }
        struct Pair43 {
            1: optional list<i32> a
            /* plain block */
            2: optional Tone b
        }
        struct Pair44 {
            1: optional list<i32> a
            /// first
            /// second
            /** third */
            2: required Tone b;
        }
        struct Pair45 {
            1: optional list<i32> a
            /// first
            /// second
            /** third */
            2: required Tone b
        }
        struct Pair46 {
            1: optional list<i32> a
            /// first
            /// second
            /** third */
            2: optional Tone b;
        }
        struct Pair47 {
            1: optional list<i32> a
            /// first
            /// second
            /** third */
            2: optional Tone b
        }
        struct Pair48 {
            1: optional list<i32> a = 7;
            2: required Tone b;
        }
        struct Pair49 {
            1: optional list<i32> a = 7;
            2: required Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair40 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair40 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair41 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair41 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair42 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair42 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair43 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair43 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair44 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair44 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair45 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair45 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair46 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair46 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair47 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair47 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair48 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair48 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call10::Pair49 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call10::Pair49 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call11 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair50 {
            1: optional list<i32> a = 7;
            2: optional Tone b;
        }
        struct Pair51 {
            1: optional list<i32> a = 7;
            2: optional Tone b
        }
        struct Pair52 {
            1: optional list<i32> a = 7;
            /// one line
            2: required Tone b;
        }
        struct Pair53 {
            1: optional list<i32> a = 7;
            /// one line
            2: required Tone b
        }
        struct Pair54 {
            1: optional list<i32> a = 7;
            /// one line
            2: optional Tone b;
        }
        struct Pair55 {
            1: optional list<i32> a = 7;
            /// one line
            2: optional Tone b
        }
        struct Pair56 {
            1: optional list<i32> a = 7;
            /** block
               of two lines */
            2: required Tone b;
        }
        struct Pair57 {
            1: optional list<i32> a = 7;
            /** block
               of two lines */
            2: required Tone b
        }
        struct Pair58 {
            1: optional list<i32> a = 7;
            /** block
               of two lines */
            2: optional Tone b;
        }
        struct Pair59 {
            1: optional list<i32> a = 7;
            /** block
               of two lines */
            2: optional Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair50 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair50 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair51 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair51 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair52 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair52 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair53 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair53 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair54 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair54 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair55 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair55 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair56 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair56 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair57 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair57 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair58 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair58 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call11::Pair59 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call11::Pair59 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call12 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair60 {
            1: optional list<i32> a = 7;
            // plain
            2: required Tone b;
        }
        struct Pair61 {
            1: optional list<i32> a = 7;
            // plain
            2: required Tone b
        }
        struct Pair62 {
            1: optional list<i32> a = 7;
            // plain
            2: optional Tone b;
        }
        struct Pair63 {
            1: optional list<i32> a = 7;
            // plain
            2: optional Tone b
        }
        struct Pair64 {
            1: optional list<i32> a = 7;
            /* plain block */
            2: required Tone b;
        }
        struct Pair65 {
            1: optional list<i32> a = 7;
            /* plain block */
            2: required Tone b
        }
        struct Pair66 {
            1: optional list<i32> a = 7;
            /* plain block */
            2: optional Tone b;
        }
        struct Pair67 {
            1: optional list<i32> a = 7;
            /* plain block */
            2: optional Tone b
        }
        struct Pair68 {
            1: optional list<i32> a = 7;
            /// first
            /// second
            /** third */
            2: required Tone b;
        }
        struct Pair69 {
            1: optional list<i32> a = 7;
            /// first
            /// second
            /** third */
            2: required Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair60 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair60 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair61 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair61 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair62 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair62 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair63 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair63 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair64 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair64 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair65 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair65 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair66 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair66 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair67 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair67 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair68 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair68 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call12::Pair69 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call12::Pair69 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call13 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair70 {
            1: optional list<i32> a = 7;
            /// first
            /// second
            /** third */
            2: optional Tone b;
        }
        struct Pair71 {
            1: optional list<i32> a = 7;
            /// first
            /// second
            /** third */
            2: optional Tone b
        }
        struct Pair72 {
            1: optional list<i32> a = 7
            2: required Tone b;
        }
        struct Pair73 {
            1: optional list<i32> a = 7
            2: required Tone b
        }
        struct Pair74 {
            1: optional list<i32> a = 7
            2: optional Tone b;
        }
        struct Pair75 {
            1: optional list<i32> a = 7
            2: optional Tone b
        }
        struct Pair76 {
            1: optional list<i32> a = 7
            /// one line
            2: required Tone b;
        }
        struct Pair77 {
            1: optional list<i32> a = 7
            /// one line
            2: required Tone b
        }
        struct Pair78 {
            1: optional list<i32> a = 7
            /// one line
            2: optional Tone b;
        }
        struct Pair79 {
            1: optional list<i32> a = 7
            /// one line
            2: optional Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair70 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair70 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair71 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair71 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair72 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair72 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair73 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair73 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair74 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair74 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair75 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair75 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair76 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair76 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair77 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair77 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair78 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair78 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call13::Pair79 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call13::Pair79 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call14 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair80 {
            1: optional list<i32> a = 7
            /** block
               of two lines */
            2: required Tone b;
        }
        struct Pair81 {
            1: optional list<i32> a = 7
            /** block
               of two lines */
            2: required Tone b
        }
        struct Pair82 {
            1: optional list<i32> a = 7
            /** block
               of two lines */
            2: optional Tone b;
        }
        struct Pair83 {
            1: optional list<i32> a = 7
            /** block
               of two lines */
            2: optional Tone b
        }
        struct Pair84 {
            1: optional list<i32> a = 7
            // plain
            2: required Tone b;
        }
        struct Pair85 {
            1: optional list<i32> a = 7
            // plain
            2: required Tone b
        }
        struct Pair86 {
            1: optional list<i32> a = 7
            // plain
            2: optional Tone b;
        }
        struct Pair87 {
            1: optional list<i32> a = 7
            // plain
            2: optional Tone b
        }
        struct Pair88 {
            1: optional list<i32> a = 7
            /* plain block */
            2: required Tone b;
        }
        struct Pair89 {
            1: optional list<i32> a = 7
            /* plain block */
            2: required Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair80 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair80 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair81 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair81 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair82 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair82 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair83 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair83 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair84 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair84 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair85 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair85 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair86 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair86 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair87 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair87 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair88 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair88 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call14::Pair89 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call14::Pair89 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call15 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Pair90 {
            1: optional list<i32> a = 7
            /* plain block */
            2: optional Tone b;
        }
        struct Pair91 {
            1: optional list<i32> a = 7
            /* plain block */
            2: optional Tone b
        }
        struct Pair92 {
            1: optional list<i32> a = 7
            /// first
            /// second
            /** third */
            2: required Tone b;
        }
        struct Pair93 {
            1: optional list<i32> a = 7
            /// first
            /// second
            /** third */
            2: required Tone b
        }
        struct Pair94 {
            1: optional list<i32> a = 7
            /// first
            /// second
            /** third */
            2: optional Tone b;
        }
        struct Pair95 {
            1: optional list<i32> a = 7
            /// first
            /// second
            /** third */
            2: optional Tone b
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair90 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair90 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair91 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair91 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair92 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair92 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair93 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair93 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair94 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair94 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call15::Pair95 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call15::Pair95 { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call16 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Member0 {
            1: bool m0;
            2: bool m1
            3: byte m2;
            4: byte m3
            5: i8 m4;
            6: i8 m5
            7: i16 m6;
            8: i16 m7
            9: i32 m8;
            10: i32 m9
            11: i64 m10;
            12: i64 m11
            13: double m12;
            14: double m13
            15: string m14;
            16: string m15
            17: String m16;
            18: String m17
            19: binary m18;
            20: binary m19
            21: Leaf m20;
        }
        union Member1 {
            1: Leaf m0
            2: Fork m1;
            3: Fork m2
            4: Tone m3;
            5: Tone m4
            6: list<bool> m5;
            7: list<bool> m6
            8: list<byte> m7;
            9: list<byte> m8
            10: list<i8> m9;
            11: list<i8> m10
            12: list<i16> m11;
            13: list<i16> m12
            14: list<i32> m13;
            15: list<i32> m14
            16: list<i64> m15;
            17: list<i64> m16
            18: list<double> m17;
            19: list<double> m18
            20: list<string> m19;
            21: list<string> m20
        }
        union Member2 {
            1: list<binary> m0;
            2: list<binary> m1
            3: list<Leaf> m2;
            4: list<Leaf> m3
            5: list<Fork> m4;
            6: list<Fork> m5
            7: list<Tone> m6;
            8: list<Tone> m7
            9: Box<i32> m8;
            10: Box<i32> m9
            11: Box<bool> m10;
            12: Box<bool> m11
            13: Box<Leaf> m12;
            14: Box<Leaf> m13
            15: Box<string> m14;
            16: Box<string> m15
            17: Box<str> m16;
            18: Box<str> m17
            19: Box<Fork> m18;
            20: Box<Fork> m19
            21: Rc<string> m20;
        }
        union Member3 {
            1: Rc<string> m0
            2: Rc<str> m1;
            3: Rc<str> m2
            4: Rc<Leaf> m3;
            5: Rc<Leaf> m4
            6: Rc<i64> m5;
            7: Rc<i64> m6
            8: Rc<double> m7;
            9: Rc<double> m8
            10: Rc<Tone> m9;
            11: Rc<Tone> m10
            12: Arc<string> m11;
            13: Arc<string> m12
            14: Arc<str> m13;
            15: Arc<str> m14
            16: Arc<Fork> m15;
            17: Arc<Fork> m16
            18: Arc<binary> m17;
            19: Arc<binary> m18
            20: Arc<byte> m19;
            21: Arc<byte> m20
        }
        union Member4 {
            /// one line
            1: bool m0;
            /// one line
            2: bool m1
            /// one line
            3: byte m2;
            /// one line
            4: byte m3
            /// one line
            5: i8 m4;
            /// one line
            6: i8 m5
            /// one line
            7: i16 m6;
            /// one line
            8: i16 m7
            /// one line
            9: i32 m8;
            /// one line
            10: i32 m9
            /// one line
            11: i64 m10;
            /// one line
            12: i64 m11
            /// one line
            13: double m12;
            /// one line
            14: double m13
            /// one line
            15: string m14;
            /// one line
            16: string m15
            /// one line
            17: String m16;
            /// one line
            18: String m17
            /// one line
            19: binary m18;
            /// one line
            20: binary m19
            /// one line
            21: Leaf m20;
        }
        union Member5 {
            /// one line
            1: Leaf m0
            /// one line
            2: Fork m1;
            /// one line
            3: Fork m2
            /// one line
            4: Tone m3;
            /// one line
            5: Tone m4
            /// one line
            6: list<bool> m5;
            /// one line
            7: list<bool> m6
            /// one line
            8: list<byte> m7;
            /// one line
            9: list<byte> m8
            /// one line
            10: list<i8> m9;
            /// one line
            11: list<i8> m10
            /// one line
            12: list<i16> m11;
            /// one line
            13: list<i16> m12
            /// one line
            14: list<i32> m13;
            /// one line
            15: list<i32> m14
            /// one line
            16: list<i64> m15;
            /// one line
            17: list<i64> m16
            /// one line
            18: list<double> m17;
            /// one line
            19: list<double> m18
            /// one line
            20: list<string> m19;
            /// one line
            21: list<string> m20
        }
        union Member6 {
            /// one line
            1: list<binary> m0;
            /// one line
            2: list<binary> m1
            /// one line
            3: list<Leaf> m2;
            /// one line
            4: list<Leaf> m3
            /// one line
            5: list<Fork> m4;
            /// one line
            6: list<Fork> m5
            /// one line
            7: list<Tone> m6;
            /// one line
            8: list<Tone> m7
            /// one line
            9: Box<i32> m8;
            /// one line
            10: Box<i32> m9
            /// one line
            11: Box<bool> m10;
            /// one line
            12: Box<bool> m11
            /// one line
            13: Box<Leaf> m12;
            /// one line
            14: Box<Leaf> m13
            /// one line
            15: Box<string> m14;
            /// one line
            16: Box<string> m15
            /// one line
            17: Box<str> m16;
            /// one line
            18: Box<str> m17
            /// one line
            19: Box<Fork> m18;
            /// one line
            20: Box<Fork> m19
            /// one line
            21: Rc<string> m20;
        }
        union Member7 {
            /// one line
            1: Rc<string> m0
            /// one line
            2: Rc<str> m1;
            /// one line
            3: Rc<str> m2
            /// one line
            4: Rc<Leaf> m3;
            /// one line
            5: Rc<Leaf> m4
            /// one line
            6: Rc<i64> m5;
            /// one line
            7: Rc<i64> m6
            /// one line
            8: Rc<double> m7;
            /// one line
            9: Rc<double> m8
            /// one line
            10: Rc<Tone> m9;
            /// one line
            11: Rc<Tone> m10
            /// one line
            12: Arc<string> m11;
            /// one line
            13: Arc<string> m12
            /// one line
            14: Arc<str> m13;
            /// one line
            15: Arc<str> m14
            /// one line
            16: Arc<Fork> m15;
            /// one line
            17: Arc<Fork> m16
            /// one line
            18: Arc<binary> m17;
            /// one line
            19: Arc<binary> m18
            /// one line
            20: Arc<byte> m19;
            /// one line
            21: Arc<byte> m20
        }
        union Member8 {
            /** block
               of two lines */
            1: bool m0;
            /** block
               of two lines */
            2: bool m1
            /** block
               of two lines */
            3: byte m2;
            /** block
               of two lines */
            4: byte m3
            /** block
               of two lines */
            5: i8 m4;
            /** block
               of two lines */
            6: i8 m5
            /** block
               of two lines */
            7: i16 m6;
            /** block
               of two lines */
            8: i16 m7
            /** block
               of two lines */
            9: i32 m8;
            /** block
               of two lines */
            10: i32 m9
            /** block
               of two lines */
            11: i64 m10;
            /** block
               of two lines */
            12: i64 m11
            /** block
               of two lines */
            13: double m12;
            /** block
               of two lines */
            14: double m13
            /** block
               of two lines */
            15: string m14;
            /** block
               of two lines */
            16: string m15
            /** block
               of two lines */
            17: String m16;
            /** block
               of two lines */
            18: String m17
            /** block
               of two lines */
            19: binary m18;
            /** block
               of two lines */
            20: binary m19
            /** block
               of two lines */
            21: Leaf m20;
        }
        union Member9 {
            /** block
               of two lines */
            1: Leaf m0
            /** block
               of two lines */
            2: Fork m1;
            /** block
               of two lines */
            3: Fork m2
            /** block
               of two lines */
            4: Tone m3;
            /** block
               of two lines */
            5: Tone m4
            /** block
               of two lines */
            6: list<bool> m5;
            /** block
               of two lines */
            7: list<bool> m6
            /** block
               of two lines */
            8: list<byte> m7;
            /** block
               of two lines */
            9: list<byte> m8
            /** block
               of two lines */
            10: list<i8> m9;
            /** block
               of two lines */
            11: list<i8> m10
            /** block
               of two lines */
            12: list<i16> m11;
            /** block
               of two lines */
            13: list<i16> m12
            /** block
               of two lines */
            14: list<i32> m13;
            /** block
               of two lines */
            15: list<i32> m14
            /** block
               of two lines */
            16: list<i64> m15;
            /** block
               of two lines */
            17: list<i64> m16
            /** block
               of two lines */
            18: list<double> m17;
            /** block
               of two lines */
            19: list<double> m18
            /** block
               of two lines */
            20: list<string> m19;
            /** block
               of two lines */
            21: list<string> m20
        }
    }
}
impl Subject for call16::Member0 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member0::m0(conv(x)),
      M::Union(1, x) => call16::Member0::m1(conv(x)),
      M::Union(2, x) => call16::Member0::m2(conv(x)),
      M::Union(3, x) => call16::Member0::m3(conv(x)),
      M::Union(4, x) => call16::Member0::m4(conv(x)),
      M::Union(5, x) => call16::Member0::m5(conv(x)),
      M::Union(6, x) => call16::Member0::m6(conv(x)),
      M::Union(7, x) => call16::Member0::m7(conv(x)),
      M::Union(8, x) => call16::Member0::m8(conv(x)),
      M::Union(9, x) => call16::Member0::m9(conv(x)),
      M::Union(10, x) => call16::Member0::m10(conv(x)),
      M::Union(11, x) => call16::Member0::m11(conv(x)),
      M::Union(12, x) => call16::Member0::m12(conv(x)),
      M::Union(13, x) => call16::Member0::m13(conv(x)),
      M::Union(14, x) => call16::Member0::m14(conv(x)),
      M::Union(15, x) => call16::Member0::m15(conv(x)),
      M::Union(16, x) => call16::Member0::m16(conv(x)),
      M::Union(17, x) => call16::Member0::m17(conv(x)),
      M::Union(18, x) => call16::Member0::m18(conv(x)),
      M::Union(19, x) => call16::Member0::m19(conv(x)),
      M::Union(20, x) => call16::Member0::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member0::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member0::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member0::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member0::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member0::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member0::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member0::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member0::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member0::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member0::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member0::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member0::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member0::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member0::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member0::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member0::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member0::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member0::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member0::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member0::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member0::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member1 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member1::m0(conv(x)),
      M::Union(1, x) => call16::Member1::m1(conv(x)),
      M::Union(2, x) => call16::Member1::m2(conv(x)),
      M::Union(3, x) => call16::Member1::m3(conv(x)),
      M::Union(4, x) => call16::Member1::m4(conv(x)),
      M::Union(5, x) => call16::Member1::m5(conv(x)),
      M::Union(6, x) => call16::Member1::m6(conv(x)),
      M::Union(7, x) => call16::Member1::m7(conv(x)),
      M::Union(8, x) => call16::Member1::m8(conv(x)),
      M::Union(9, x) => call16::Member1::m9(conv(x)),
      M::Union(10, x) => call16::Member1::m10(conv(x)),
      M::Union(11, x) => call16::Member1::m11(conv(x)),
      M::Union(12, x) => call16::Member1::m12(conv(x)),
      M::Union(13, x) => call16::Member1::m13(conv(x)),
      M::Union(14, x) => call16::Member1::m14(conv(x)),
      M::Union(15, x) => call16::Member1::m15(conv(x)),
      M::Union(16, x) => call16::Member1::m16(conv(x)),
      M::Union(17, x) => call16::Member1::m17(conv(x)),
      M::Union(18, x) => call16::Member1::m18(conv(x)),
      M::Union(19, x) => call16::Member1::m19(conv(x)),
      M::Union(20, x) => call16::Member1::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member1::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member1::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member1::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member1::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member1::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member1::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member1::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member1::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member1::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member1::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member1::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member1::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member1::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member1::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member1::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member1::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member1::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member1::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member1::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member1::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member1::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member2 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member2::m0(conv(x)),
      M::Union(1, x) => call16::Member2::m1(conv(x)),
      M::Union(2, x) => call16::Member2::m2(conv(x)),
      M::Union(3, x) => call16::Member2::m3(conv(x)),
      M::Union(4, x) => call16::Member2::m4(conv(x)),
      M::Union(5, x) => call16::Member2::m5(conv(x)),
      M::Union(6, x) => call16::Member2::m6(conv(x)),
      M::Union(7, x) => call16::Member2::m7(conv(x)),
      M::Union(8, x) => call16::Member2::m8(conv(x)),
      M::Union(9, x) => call16::Member2::m9(conv(x)),
      M::Union(10, x) => call16::Member2::m10(conv(x)),
      M::Union(11, x) => call16::Member2::m11(conv(x)),
      M::Union(12, x) => call16::Member2::m12(conv(x)),
      M::Union(13, x) => call16::Member2::m13(conv(x)),
      M::Union(14, x) => call16::Member2::m14(conv(x)),
      M::Union(15, x) => call16::Member2::m15(conv(x)),
      M::Union(16, x) => call16::Member2::m16(conv(x)),
      M::Union(17, x) => call16::Member2::m17(conv(x)),
      M::Union(18, x) => call16::Member2::m18(conv(x)),
      M::Union(19, x) => call16::Member2::m19(conv(x)),
      M::Union(20, x) => call16::Member2::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member2::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member2::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member2::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member2::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member2::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member2::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member2::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member2::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member2::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member2::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member2::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member2::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member2::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member2::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member2::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member2::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member2::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member2::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member2::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member2::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member2::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member3 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member3::m0(conv(x)),
      M::Union(1, x) => call16::Member3::m1(conv(x)),
      M::Union(2, x) => call16::Member3::m2(conv(x)),
      M::Union(3, x) => call16::Member3::m3(conv(x)),
      M::Union(4, x) => call16::Member3::m4(conv(x)),
      M::Union(5, x) => call16::Member3::m5(conv(x)),
      M::Union(6, x) => call16::Member3::m6(conv(x)),
      M::Union(7, x) => call16::Member3::m7(conv(x)),
      M::Union(8, x) => call16::Member3::m8(conv(x)),
      M::Union(9, x) => call16::Member3::m9(conv(x)),
      M::Union(10, x) => call16::Member3::m10(conv(x)),
      M::Union(11, x) => call16::Member3::m11(conv(x)),
      M::Union(12, x) => call16::Member3::m12(conv(x)),
      M::Union(13, x) => call16::Member3::m13(conv(x)),
      M::Union(14, x) => call16::Member3::m14(conv(x)),
      M::Union(15, x) => call16::Member3::m15(conv(x)),
      M::Union(16, x) => call16::Member3::m16(conv(x)),
      M::Union(17, x) => call16::Member3::m17(conv(x)),
      M::Union(18, x) => call16::Member3::m18(conv(x)),
      M::Union(19, x) => call16::Member3::m19(conv(x)),
      M::Union(20, x) => call16::Member3::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member3::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member3::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member3::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member3::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member3::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member3::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member3::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member3::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member3::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member3::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member3::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member3::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member3::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member3::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member3::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member3::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member3::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member3::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member3::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member3::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member3::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member4 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member4::m0(conv(x)),
      M::Union(1, x) => call16::Member4::m1(conv(x)),
      M::Union(2, x) => call16::Member4::m2(conv(x)),
      M::Union(3, x) => call16::Member4::m3(conv(x)),
      M::Union(4, x) => call16::Member4::m4(conv(x)),
      M::Union(5, x) => call16::Member4::m5(conv(x)),
      M::Union(6, x) => call16::Member4::m6(conv(x)),
      M::Union(7, x) => call16::Member4::m7(conv(x)),
      M::Union(8, x) => call16::Member4::m8(conv(x)),
      M::Union(9, x) => call16::Member4::m9(conv(x)),
      M::Union(10, x) => call16::Member4::m10(conv(x)),
      M::Union(11, x) => call16::Member4::m11(conv(x)),
      M::Union(12, x) => call16::Member4::m12(conv(x)),
      M::Union(13, x) => call16::Member4::m13(conv(x)),
      M::Union(14, x) => call16::Member4::m14(conv(x)),
      M::Union(15, x) => call16::Member4::m15(conv(x)),
      M::Union(16, x) => call16::Member4::m16(conv(x)),
      M::Union(17, x) => call16::Member4::m17(conv(x)),
      M::Union(18, x) => call16::Member4::m18(conv(x)),
      M::Union(19, x) => call16::Member4::m19(conv(x)),
      M::Union(20, x) => call16::Member4::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member4::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member4::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member4::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member4::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member4::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member4::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member4::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member4::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member4::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member4::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member4::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member4::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member4::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member4::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member4::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member4::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member4::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member4::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member4::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member4::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member4::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member5 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member5::m0(conv(x)),
      M::Union(1, x) => call16::Member5::m1(conv(x)),
      M::Union(2, x) => call16::Member5::m2(conv(x)),
      M::Union(3, x) => call16::Member5::m3(conv(x)),
      M::Union(4, x) => call16::Member5::m4(conv(x)),
      M::Union(5, x) => call16::Member5::m5(conv(x)),
      M::Union(6, x) => call16::Member5::m6(conv(x)),
      M::Union(7, x) => call16::Member5::m7(conv(x)),
      M::Union(8, x) => call16::Member5::m8(conv(x)),
      M::Union(9, x) => call16::Member5::m9(conv(x)),
      M::Union(10, x) => call16::Member5::m10(conv(x)),
      M::Union(11, x) => call16::Member5::m11(conv(x)),
      M::Union(12, x) => call16::Member5::m12(conv(x)),
      M::Union(13, x) => call16::Member5::m13(conv(x)),
      M::Union(14, x) => call16::Member5::m14(conv(x)),
      M::Union(15, x) => call16::Member5::m15(conv(x)),
      M::Union(16, x) => call16::Member5::m16(conv(x)),
      M::Union(17, x) => call16::Member5::m17(conv(x)),
      M::Union(18, x) => call16::Member5::m18(conv(x)),
      M::Union(19, x) => call16::Member5::m19(conv(x)),
      M::Union(20, x) => call16::Member5::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member5::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member5::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member5::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member5::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member5::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member5::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member5::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member5::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member5::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member5::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member5::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member5::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member5::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member5::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member5::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member5::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member5::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member5::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member5::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member5::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member5::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member6 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member6::m0(conv(x)),
      M::Union(1, x) => call16::Member6::m1(conv(x)),
      M::Union(2, x) => call16::Member6::m2(conv(x)),
      M::Union(3, x) => call16::Member6::m3(conv(x)),
      M::Union(4, x) => call16::Member6::m4(conv(x)),
      M::Union(5, x) => call16::Member6::m5(conv(x)),
      M::Union(6, x) => call16::Member6::m6(conv(x)),
      M::Union(7, x) => call16::Member6::m7(conv(x)),
      M::Union(8, x) => call16::Member6::m8(conv(x)),
      M::Union(9, x) => call16::Member6::m9(conv(x)),
      M::Union(10, x) => call16::Member6::m10(conv(x)),
      M::Union(11, x) => call16::Member6::m11(conv(x)),
      M::Union(12, x) => call16::Member6::m12(conv(x)),
      M::Union(13, x) => call16::Member6::m13(conv(x)),
      M::Union(14, x) => call16::Member6::m14(conv(x)),
      M::Union(15, x) => call16::Member6::m15(conv(x)),
      M::Union(16, x) => call16::Member6::m16(conv(x)),
      M::Union(17, x) => call16::Member6::m17(conv(x)),
      M::Union(18, x) => call16::Member6::m18(conv(x)),
      M::Union(19, x) => call16::Member6::m19(conv(x)),
      M::Union(20, x) => call16::Member6::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member6::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member6::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member6::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member6::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member6::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member6::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member6::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member6::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member6::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member6::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member6::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member6::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member6::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member6::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member6::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member6::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member6::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member6::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member6::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member6::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member6::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member7 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member7::m0(conv(x)),
      M::Union(1, x) => call16::Member7::m1(conv(x)),
      M::Union(2, x) => call16::Member7::m2(conv(x)),
      M::Union(3, x) => call16::Member7::m3(conv(x)),
      M::Union(4, x) => call16::Member7::m4(conv(x)),
      M::Union(5, x) => call16::Member7::m5(conv(x)),
      M::Union(6, x) => call16::Member7::m6(conv(x)),
      M::Union(7, x) => call16::Member7::m7(conv(x)),
      M::Union(8, x) => call16::Member7::m8(conv(x)),
      M::Union(9, x) => call16::Member7::m9(conv(x)),
      M::Union(10, x) => call16::Member7::m10(conv(x)),
      M::Union(11, x) => call16::Member7::m11(conv(x)),
      M::Union(12, x) => call16::Member7::m12(conv(x)),
      M::Union(13, x) => call16::Member7::m13(conv(x)),
      M::Union(14, x) => call16::Member7::m14(conv(x)),
      M::Union(15, x) => call16::Member7::m15(conv(x)),
      M::Union(16, x) => call16::Member7::m16(conv(x)),
      M::Union(17, x) => call16::Member7::m17(conv(x)),
      M::Union(18, x) => call16::Member7::m18(conv(x)),
      M::Union(19, x) => call16::Member7::m19(conv(x)),
      M::Union(20, x) => call16::Member7::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member7::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member7::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member7::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member7::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member7::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member7::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member7::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member7::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member7::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member7::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member7::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member7::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member7::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member7::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member7::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member7::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member7::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member7::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member7::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member7::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member7::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member8 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member8::m0(conv(x)),
      M::Union(1, x) => call16::Member8::m1(conv(x)),
      M::Union(2, x) => call16::Member8::m2(conv(x)),
      M::Union(3, x) => call16::Member8::m3(conv(x)),
      M::Union(4, x) => call16::Member8::m4(conv(x)),
      M::Union(5, x) => call16::Member8::m5(conv(x)),
      M::Union(6, x) => call16::Member8::m6(conv(x)),
      M::Union(7, x) => call16::Member8::m7(conv(x)),
      M::Union(8, x) => call16::Member8::m8(conv(x)),
      M::Union(9, x) => call16::Member8::m9(conv(x)),
      M::Union(10, x) => call16::Member8::m10(conv(x)),
      M::Union(11, x) => call16::Member8::m11(conv(x)),
      M::Union(12, x) => call16::Member8::m12(conv(x)),
      M::Union(13, x) => call16::Member8::m13(conv(x)),
      M::Union(14, x) => call16::Member8::m14(conv(x)),
      M::Union(15, x) => call16::Member8::m15(conv(x)),
      M::Union(16, x) => call16::Member8::m16(conv(x)),
      M::Union(17, x) => call16::Member8::m17(conv(x)),
      M::Union(18, x) => call16::Member8::m18(conv(x)),
      M::Union(19, x) => call16::Member8::m19(conv(x)),
      M::Union(20, x) => call16::Member8::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member8::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member8::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member8::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member8::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member8::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member8::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member8::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member8::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member8::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member8::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member8::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member8::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member8::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member8::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member8::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member8::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member8::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member8::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member8::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member8::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member8::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call16::Member9 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call16::Member9::m0(conv(x)),
      M::Union(1, x) => call16::Member9::m1(conv(x)),
      M::Union(2, x) => call16::Member9::m2(conv(x)),
      M::Union(3, x) => call16::Member9::m3(conv(x)),
      M::Union(4, x) => call16::Member9::m4(conv(x)),
      M::Union(5, x) => call16::Member9::m5(conv(x)),
      M::Union(6, x) => call16::Member9::m6(conv(x)),
      M::Union(7, x) => call16::Member9::m7(conv(x)),
      M::Union(8, x) => call16::Member9::m8(conv(x)),
      M::Union(9, x) => call16::Member9::m9(conv(x)),
      M::Union(10, x) => call16::Member9::m10(conv(x)),
      M::Union(11, x) => call16::Member9::m11(conv(x)),
      M::Union(12, x) => call16::Member9::m12(conv(x)),
      M::Union(13, x) => call16::Member9::m13(conv(x)),
      M::Union(14, x) => call16::Member9::m14(conv(x)),
      M::Union(15, x) => call16::Member9::m15(conv(x)),
      M::Union(16, x) => call16::Member9::m16(conv(x)),
      M::Union(17, x) => call16::Member9::m17(conv(x)),
      M::Union(18, x) => call16::Member9::m18(conv(x)),
      M::Union(19, x) => call16::Member9::m19(conv(x)),
      M::Union(20, x) => call16::Member9::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call16::Member9::m0(x) => M::Union(0, Box::new(x.to_m())),
      call16::Member9::m1(x) => M::Union(1, Box::new(x.to_m())),
      call16::Member9::m2(x) => M::Union(2, Box::new(x.to_m())),
      call16::Member9::m3(x) => M::Union(3, Box::new(x.to_m())),
      call16::Member9::m4(x) => M::Union(4, Box::new(x.to_m())),
      call16::Member9::m5(x) => M::Union(5, Box::new(x.to_m())),
      call16::Member9::m6(x) => M::Union(6, Box::new(x.to_m())),
      call16::Member9::m7(x) => M::Union(7, Box::new(x.to_m())),
      call16::Member9::m8(x) => M::Union(8, Box::new(x.to_m())),
      call16::Member9::m9(x) => M::Union(9, Box::new(x.to_m())),
      call16::Member9::m10(x) => M::Union(10, Box::new(x.to_m())),
      call16::Member9::m11(x) => M::Union(11, Box::new(x.to_m())),
      call16::Member9::m12(x) => M::Union(12, Box::new(x.to_m())),
      call16::Member9::m13(x) => M::Union(13, Box::new(x.to_m())),
      call16::Member9::m14(x) => M::Union(14, Box::new(x.to_m())),
      call16::Member9::m15(x) => M::Union(15, Box::new(x.to_m())),
      call16::Member9::m16(x) => M::Union(16, Box::new(x.to_m())),
      call16::Member9::m17(x) => M::Union(17, Box::new(x.to_m())),
      call16::Member9::m18(x) => M::Union(18, Box::new(x.to_m())),
      call16::Member9::m19(x) => M::Union(19, Box::new(x.to_m())),
      call16::Member9::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call17 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Member10 {
            /** block
               of two lines */
            1: list<binary> m0;
            /** block
               of two lines */
            2: list<binary> m1
            /** block
               of two lines */
            3: list<Leaf> m2;
            /** block
               of two lines */
            4: list<Leaf> m3
            /** block
               of two lines */
            5: list<Fork> m4;
            /** block
               of two lines */
            6: list<Fork> m5
            /** block
               of two lines */
            7: list<Tone> m6;
            /** block
               of two lines */
            8: list<Tone> m7
            /** block
               of two lines */
            9: Box<i32> m8;
            /** block
               of two lines */
            10: Box<i32> m9
            /** block
               of two lines */
            11: Box<bool> m10;
            /** block
               of two lines */
            12: Box<bool> m11
            /** block
               of two lines */
            13: Box<Leaf> m12;
            /** block
               of two lines */
            14: Box<Leaf> m13
            /** block
               of two lines */
            15: Box<string> m14;
            /** block
               of two lines */
            16: Box<string> m15
            /** block
               of two lines */
            17: Box<str> m16;
            /** block
               of two lines */
            18: Box<str> m17
            /** block
               of two lines */
            19: Box<Fork> m18;
            /** block
               of two lines */
            20: Box<Fork> m19
            /** block
               of two lines */
            21: Rc<string> m20;
        }
        union Member11 {
            /** block
               of two lines */
            1: Rc<string> m0
            /** block
               of two lines */
            2: Rc<str> m1;
            /** block
               of two lines */
            3: Rc<str> m2
            /** block
               of two lines */
            4: Rc<Leaf> m3;
            /** block
               of two lines */
            5: Rc<Leaf> m4
            /** block
               of two lines */
            6: Rc<i64> m5;
            /** block
               of two lines */
            7: Rc<i64> m6
            /** block
               of two lines */
            8: Rc<double> m7;
            /** block
               of two lines */
            9: Rc<double> m8
            /** block
               of two lines */
            10: Rc<Tone> m9;
            /** block
               of two lines */
            11: Rc<Tone> m10
            /** block
               of two lines */
            12: Arc<string> m11;
            /** block
               of two lines */
            13: Arc<string> m12
            /** block
               of two lines */
            14: Arc<str> m13;
            /** block
               of two lines */
            15: Arc<str> m14
            /** block
               of two lines */
            16: Arc<Fork> m15;
            /** block
               of two lines */
            17: Arc<Fork> m16
            /** block
               of two lines */
            18: Arc<binary> m17;
            /** block
               of two lines */
            19: Arc<binary> m18
            /** block
               of two lines */
            20: Arc<byte> m19;
            /** block
               of two lines */
            21: Arc<byte> m20
        }
        union Member12 {
            // plain
            1: bool m0;
            // plain
            2: bool m1
            // plain
            3: byte m2;
            // plain
            4: byte m3
            // plain
            5: list<Leaf> m4;
            // plain
            6: list<Leaf> m5
            // plain
            7: Rc<str> m6;
            // plain
            8: Rc<str> m7
            /* plain block */
            9: bool m8;
            /* plain block */
            10: bool m9
            /* plain block */
            11: byte m10;
            /* plain block */
            12: byte m11
            /* plain block */
            13: list<Leaf> m12;
            /* plain block */
            14: list<Leaf> m13
            /* plain block */
            15: Rc<str> m14;
            /* plain block */
            16: Rc<str> m15
            /// first
            /// second
            /** third */
            17: bool m16;
            /// first
            /// second
            /** third */
            18: bool m17
            /// first
            /// second
            /** third */
            19: byte m18;
            /// first
            /// second
            /** third */
            20: byte m19
            /// first
            /// second
            /** third */
            21: list<Leaf> m20;
        }
        union Member13 {
            /// first
            /// second
            /** third */
            1: list<Leaf> m0
            /// first
            /// second
            /** third */
            2: Rc<str> m1;
            /// first
            /// second
            /** third */
            3: Rc<str> m2
        }
        union Lone0 {
            3: i64 only;
        }
        union Lone1 {
            3: i64 only
        }
        union Lone2 {
            /// one line
            3: i64 only;
        }
        union Lone3 {
            /// one line
            3: i64 only
        }
        union Lone4 {
            /** block
               of two lines */
            3: i64 only;
        }
        union Lone5 {
            /** block
               of two lines */
            3: i64 only
        }
    }
}
impl Subject for call17::Member10 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Member10::m0(conv(x)),
      M::Union(1, x) => call17::Member10::m1(conv(x)),
      M::Union(2, x) => call17::Member10::m2(conv(x)),
      M::Union(3, x) => call17::Member10::m3(conv(x)),
      M::Union(4, x) => call17::Member10::m4(conv(x)),
      M::Union(5, x) => call17::Member10::m5(conv(x)),
      M::Union(6, x) => call17::Member10::m6(conv(x)),
      M::Union(7, x) => call17::Member10::m7(conv(x)),
      M::Union(8, x) => call17::Member10::m8(conv(x)),
      M::Union(9, x) => call17::Member10::m9(conv(x)),
      M::Union(10, x) => call17::Member10::m10(conv(x)),
      M::Union(11, x) => call17::Member10::m11(conv(x)),
      M::Union(12, x) => call17::Member10::m12(conv(x)),
      M::Union(13, x) => call17::Member10::m13(conv(x)),
      M::Union(14, x) => call17::Member10::m14(conv(x)),
      M::Union(15, x) => call17::Member10::m15(conv(x)),
      M::Union(16, x) => call17::Member10::m16(conv(x)),
      M::Union(17, x) => call17::Member10::m17(conv(x)),
      M::Union(18, x) => call17::Member10::m18(conv(x)),
      M::Union(19, x) => call17::Member10::m19(conv(x)),
      M::Union(20, x) => call17::Member10::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Member10::m0(x) => M::Union(0, Box::new(x.to_m())),
      call17::Member10::m1(x) => M::Union(1, Box::new(x.to_m())),
      call17::Member10::m2(x) => M::Union(2, Box::new(x.to_m())),
      call17::Member10::m3(x) => M::Union(3, Box::new(x.to_m())),
      call17::Member10::m4(x) => M::Union(4, Box::new(x.to_m())),
      call17::Member10::m5(x) => M::Union(5, Box::new(x.to_m())),
      call17::Member10::m6(x) => M::Union(6, Box::new(x.to_m())),
      call17::Member10::m7(x) => M::Union(7, Box::new(x.to_m())),
      call17::Member10::m8(x) => M::Union(8, Box::new(x.to_m())),
      call17::Member10::m9(x) => M::Union(9, Box::new(x.to_m())),
      call17::Member10::m10(x) => M::Union(10, Box::new(x.to_m())),
      call17::Member10::m11(x) => M::Union(11, Box::new(x.to_m())),
      call17::Member10::m12(x) => M::Union(12, Box::new(x.to_m())),
      call17::Member10::m13(x) => M::Union(13, Box::new(x.to_m())),
      call17::Member10::m14(x) => M::Union(14, Box::new(x.to_m())),
      call17::Member10::m15(x) => M::Union(15, Box::new(x.to_m())),
      call17::Member10::m16(x) => M::Union(16, Box::new(x.to_m())),
      call17::Member10::m17(x) => M::Union(17, Box::new(x.to_m())),
      call17::Member10::m18(x) => M::Union(18, Box::new(x.to_m())),
      call17::Member10::m19(x) => M::Union(19, Box::new(x.to_m())),
      call17::Member10::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Member11 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Member11::m0(conv(x)),
      M::Union(1, x) => call17::Member11::m1(conv(x)),
      M::Union(2, x) => call17::Member11::m2(conv(x)),
      M::Union(3, x) => call17::Member11::m3(conv(x)),
      M::Union(4, x) => call17::Member11::m4(conv(x)),
      M::Union(5, x) => call17::Member11::m5(conv(x)),
      M::Union(6, x) => call17::Member11::m6(conv(x)),
      M::Union(7, x) => call17::Member11::m7(conv(x)),
      M::Union(8, x) => call17::Member11::m8(conv(x)),
      M::Union(9, x) => call17::Member11::m9(conv(x)),
      M::Union(10, x) => call17::Member11::m10(conv(x)),
      M::Union(11, x) => call17::Member11::m11(conv(x)),
      M::Union(12, x) => call17::Member11::m12(conv(x)),
      M::Union(13, x) => call17::Member11::m13(conv(x)),
      M::Union(14, x) => call17::Member11::m14(conv(x)),
      M::Union(15, x) => call17::Member11::m15(conv(x)),
      M::Union(16, x) => call17::Member11::m16(conv(x)),
      M::Union(17, x) => call17::Member11::m17(conv(x)),
      M::Union(18, x) => call17::Member11::m18(conv(x)),
      M::Union(19, x) => call17::Member11::m19(conv(x)),
      M::Union(20, x) => call17::Member11::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Member11::m0(x) => M::Union(0, Box::new(x.to_m())),
      call17::Member11::m1(x) => M::Union(1, Box::new(x.to_m())),
      call17::Member11::m2(x) => M::Union(2, Box::new(x.to_m())),
      call17::Member11::m3(x) => M::Union(3, Box::new(x.to_m())),
      call17::Member11::m4(x) => M::Union(4, Box::new(x.to_m())),
      call17::Member11::m5(x) => M::Union(5, Box::new(x.to_m())),
      call17::Member11::m6(x) => M::Union(6, Box::new(x.to_m())),
      call17::Member11::m7(x) => M::Union(7, Box::new(x.to_m())),
      call17::Member11::m8(x) => M::Union(8, Box::new(x.to_m())),
      call17::Member11::m9(x) => M::Union(9, Box::new(x.to_m())),
      call17::Member11::m10(x) => M::Union(10, Box::new(x.to_m())),
      call17::Member11::m11(x) => M::Union(11, Box::new(x.to_m())),
      call17::Member11::m12(x) => M::Union(12, Box::new(x.to_m())),
      call17::Member11::m13(x) => M::Union(13, Box::new(x.to_m())),
      call17::Member11::m14(x) => M::Union(14, Box::new(x.to_m())),
      call17::Member11::m15(x) => M::Union(15, Box::new(x.to_m())),
      call17::Member11::m16(x) => M::Union(16, Box::new(x.to_m())),
      call17::Member11::m17(x) => M::Union(17, Box::new(x.to_m())),
      call17::Member11::m18(x) => M::Union(18, Box::new(x.to_m())),
      call17::Member11::m19(x) => M::Union(19, Box::new(x.to_m())),
      call17::Member11::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Member12 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Member12::m0(conv(x)),
      M::Union(1, x) => call17::Member12::m1(conv(x)),
      M::Union(2, x) => call17::Member12::m2(conv(x)),
      M::Union(3, x) => call17::Member12::m3(conv(x)),
      M::Union(4, x) => call17::Member12::m4(conv(x)),
      M::Union(5, x) => call17::Member12::m5(conv(x)),
      M::Union(6, x) => call17::Member12::m6(conv(x)),
      M::Union(7, x) => call17::Member12::m7(conv(x)),
      M::Union(8, x) => call17::Member12::m8(conv(x)),
      M::Union(9, x) => call17::Member12::m9(conv(x)),
      M::Union(10, x) => call17::Member12::m10(conv(x)),
      M::Union(11, x) => call17::Member12::m11(conv(x)),
      M::Union(12, x) => call17::Member12::m12(conv(x)),
      M::Union(13, x) => call17::Member12::m13(conv(x)),
      M::Union(14, x) => call17::Member12::m14(conv(x)),
      M::Union(15, x) => call17::Member12::m15(conv(x)),
      M::Union(16, x) => call17::Member12::m16(conv(x)),
      M::Union(17, x) => call17::Member12::m17(conv(x)),
      M::Union(18, x) => call17::Member12::m18(conv(x)),
      M::Union(19, x) => call17::Member12::m19(conv(x)),
      M::Union(20, x) => call17::Member12::m20(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Member12::m0(x) => M::Union(0, Box::new(x.to_m())),
      call17::Member12::m1(x) => M::Union(1, Box::new(x.to_m())),
      call17::Member12::m2(x) => M::Union(2, Box::new(x.to_m())),
      call17::Member12::m3(x) => M::Union(3, Box::new(x.to_m())),
      call17::Member12::m4(x) => M::Union(4, Box::new(x.to_m())),
      call17::Member12::m5(x) => M::Union(5, Box::new(x.to_m())),
      call17::Member12::m6(x) => M::Union(6, Box::new(x.to_m())),
      call17::Member12::m7(x) => M::Union(7, Box::new(x.to_m())),
      call17::Member12::m8(x) => M::Union(8, Box::new(x.to_m())),
      call17::Member12::m9(x) => M::Union(9, Box::new(x.to_m())),
      call17::Member12::m10(x) => M::Union(10, Box::new(x.to_m())),
      call17::Member12::m11(x) => M::Union(11, Box::new(x.to_m())),
      call17::Member12::m12(x) => M::Union(12, Box::new(x.to_m())),
      call17::Member12::m13(x) => M::Union(13, Box::new(x.to_m())),
      call17::Member12::m14(x) => M::Union(14, Box::new(x.to_m())),
      call17::Member12::m15(x) => M::Union(15, Box::new(x.to_m())),
      call17::Member12::m16(x) => M::Union(16, Box::new(x.to_m())),
      call17::Member12::m17(x) => M::Union(17, Box::new(x.to_m())),
      call17::Member12::m18(x) => M::Union(18, Box::new(x.to_m())),
      call17::Member12::m19(x) => M::Union(19, Box::new(x.to_m())),
      call17::Member12::m20(x) => M::Union(20, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Member13 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Member13::m0(conv(x)),
      M::Union(1, x) => call17::Member13::m1(conv(x)),
      M::Union(2, x) => call17::Member13::m2(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Member13::m0(x) => M::Union(0, Box::new(x.to_m())),
      call17::Member13::m1(x) => M::Union(1, Box::new(x.to_m())),
      call17::Member13::m2(x) => M::Union(2, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone0 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone0::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone0::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone1 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone1::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone1::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone2 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone2::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone2::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone3 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone3::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone3::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone4 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone4::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone4::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call17::Lone5 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call17::Lone5::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call17::Lone5::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call18 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Lone6 {
            // plain
            3: i64 only;
        }
        union Lone7 {
            // plain
            3: i64 only
        }
        union Lone8 {
            /* plain block */
            3: i64 only;
        }
        union Lone9 {
            /* plain block */
            3: i64 only
        }
        union Lone10 {
            /// first
            /// second
            /** third */
            3: i64 only;
        }
        union Lone11 {
            /// first
            /// second
            /** third */
            3: i64 only
        }
    }
}
impl Subject for call18::Lone6 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone6::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone6::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call18::Lone7 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone7::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone7::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call18::Lone8 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone8::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone8::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call18::Lone9 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone9::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone9::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call18::Lone10 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone10::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone10::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call18::Lone11 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call18::Lone11::only(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call18::Lone11::only(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call19 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Consts0 {
            C0 = 0;
            C1 = 1;
            C2 = -1;
            C3 = 127;
            C4 = 128;
            C5 = -129;
            C6 = 2147483647;
            C7 = -2147483648;
        }
        enum Consts1 {
            /// one line
            C0 = 0;
            /// one line
            C1 = 1;
            /// one line
            C2 = -1;
            /// one line
            C3 = 127;
            /// one line
            C4 = 128;
            /// one line
            C5 = -129;
            /// one line
            C6 = 2147483647;
            /// one line
            C7 = -2147483648;
        }
        enum Consts2 {
            /** block
               of two lines */
            C0 = 0;
            /** block
               of two lines */
            C1 = 1;
            /** block
               of two lines */
            C2 = -1;
            /** block
               of two lines */
            C3 = 127;
            /** block
               of two lines */
            C4 = 128;
            /** block
               of two lines */
            C5 = -129;
            /** block
               of two lines */
            C6 = 2147483647;
            /** block
               of two lines */
            C7 = -2147483648;
        }
        enum Consts3 {
            // plain
            C0 = 0;
            // plain
            C1 = 1;
            // plain
            C2 = -1;
            // plain
            C3 = 127;
            // plain
            C4 = 128;
            // plain
            C5 = -129;
            // plain
            C6 = 2147483647;
            // plain
            C7 = -2147483648;
        }
        enum Consts4 {
            /* plain block */
            C0 = 0;
            /* plain block */
            C1 = 1;
            /* plain block */
            C2 = -1;
            /* plain block */
            C3 = 127;
            /* plain block */
            C4 = 128;
            /* plain block */
            C5 = -129;
            /* plain block */
            C6 = 2147483647;
            /* plain block */
            C7 = -2147483648;
        }
        enum Consts5 {
            /// first
            /// second
            /** third */
            C0 = 0;
            /// first
            /// second
            /** third */
            C1 = 1;
            /// first
            /// second
            /** third */
            C2 = -1;
            /// first
            /// second
            /** third */
            C3 = 127;
            /// first
            /// second
            /** third */
            C4 = 128;
            /// first
            /// second
            /** third */
            C5 = -129;
            /// first
            /// second
            /** third */
            C6 = 2147483647;
            /// first
            /// second
            /** third */
            C7 = -2147483648;
        }
        enum NoConsts {}
    }
}
impl Subject for call19::Consts0 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts0(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::Consts1 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts1(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::Consts2 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts2(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::Consts3 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts3(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::Consts4 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts4(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::Consts5 { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::Consts5(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call19::NoConsts { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call19::NoConsts(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call20 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct RequiredNames0 {
            1: required i32 input;
            2: required bool output;
            3: required string last_field_id;
            4: required list<i32> field_type;
            5: required i32 result;
            6: required bool inner;
            7: required string stop;
            8: required list<i32> value;
            9: required i32 values;
            10: required bool new;
            11: required string default;
            12: required list<i32> name;
            13: required i32 len;
        }
        struct OptionalNames0 {
            1: optional i32 input;
            2: optional bool output;
            3: optional string last_field_id;
            4: optional list<i32> field_type;
            5: optional i32 result;
            6: optional bool inner;
            7: optional string stop;
            8: optional list<i32> value;
            9: optional i32 values;
            10: optional bool new;
            11: optional string default;
            12: optional list<i32> name;
            13: optional i32 len;
        }
        union AnyNames0 {
            1: i32 input;
            2: bool output;
            3: string last_field_id;
            4: list<i32> field_type;
            5: i32 result;
            6: bool inner;
            7: string stop;
            8: list<i32> value;
            9: i32 values;
            10: bool new;
            11: string default;
            12: list<i32> name;
            13: i32 len;
        }
        struct RequiredNames13 {
            1: required i32 index;
            2: required bool other;
            3: required string field_id;
            4: required list<i32> header;
            5: required i32 this;
            6: required bool me;
            7: required string flag;
            8: required list<i32> found;
            9: required i32 seen;
            10: required bool missing;
            11: required string i;
            12: required list<i32> x;
            13: required i32 e;
        }
        struct OptionalNames13 {
            1: optional i32 index;
            2: optional bool other;
            3: optional string field_id;
            4: optional list<i32> header;
            5: optional i32 this;
            6: optional bool me;
            7: optional string flag;
            8: optional list<i32> found;
            9: optional i32 seen;
            10: optional bool missing;
            11: optional string i;
            12: optional list<i32> x;
            13: optional i32 e;
        }
        union AnyNames13 {
            1: i32 index;
            2: bool other;
            3: string field_id;
            4: list<i32> header;
            5: i32 this;
            6: bool me;
            7: string flag;
            8: list<i32> found;
            9: i32 seen;
            10: bool missing;
            11: string i;
            12: list<i32> x;
            13: i32 e;
        }
        struct RequiredNames26 {
            1: required i32 r;
            2: required bool f;
            3: required string fmt;
            4: required list<i32> clone;
            5: required i32 eq;
            6: required bool from;
            7: required string into;
            8: required list<i32> fill_thrift;
            9: required i32 write_thrift;
            10: required bool read_thrift;
            11: required string fill_thrift_field;
            12: required list<i32> write_thrift_field;
            13: required i32 required;
        }
        struct OptionalNames26 {
            1: optional i32 r;
            2: optional bool f;
            3: optional string fmt;
            4: optional list<i32> clone;
            5: optional i32 eq;
            6: optional bool from;
            7: optional string into;
            8: optional list<i32> fill_thrift;
            9: optional i32 write_thrift;
            10: optional bool read_thrift;
            11: optional string fill_thrift_field;
            12: optional list<i32> write_thrift_field;
            13: optional i32 required;
        }
        union AnyNames26 {
            1: i32 r;
            2: bool f;
            3: string fmt;
            4: list<i32> clone;
            5: i32 eq;
            6: bool from;
            7: string into;
            8: list<i32> fill_thrift;
            9: i32 write_thrift;
            10: bool read_thrift;
            11: string fill_thrift_field;
            12: list<i32> write_thrift_field;
            13: i32 required;
        }
        struct RequiredNames39 {
            1: required i32 optional;
            2: required bool list;
            3: required string set;
            4: required list<i32> string;
            5: required i32 binary;
            6: required bool double;
            7: required string union;
            8: required list<i32> namespace;
            9: required i32 thrift;
            10: required bool camelCase;
            11: required string UPPER;
            12: required list<i32> _hidden;
            13: required i32 a1;
        }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call20::RequiredNames0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::RequiredNames0 { input: conv(&f[0]), output: conv(&f[1]), last_field_id: conv(&f[2]), field_type: conv(&f[3]), result: conv(&f[4]), inner: conv(&f[5]), stop: conv(&f[6]), value: conv(&f[7]), values: conv(&f[8]), new: conv(&f[9]), default: conv(&f[10]), name: conv(&f[11]), len: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.input.to_m(), self.output.to_m(), self.last_field_id.to_m(), self.field_type.to_m(), self.result.to_m(), self.inner.to_m(), self.stop.to_m(), self.value.to_m(), self.values.to_m(), self.new.to_m(), self.default.to_m(), self.name.to_m(), self.len.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call20::OptionalNames0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::OptionalNames0 { input: conv(&f[0]), output: conv(&f[1]), last_field_id: conv(&f[2]), field_type: conv(&f[3]), result: conv(&f[4]), inner: conv(&f[5]), stop: conv(&f[6]), value: conv(&f[7]), values: conv(&f[8]), new: conv(&f[9]), default: conv(&f[10]), name: conv(&f[11]), len: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.input.to_m(), self.output.to_m(), self.last_field_id.to_m(), self.field_type.to_m(), self.result.to_m(), self.inner.to_m(), self.stop.to_m(), self.value.to_m(), self.values.to_m(), self.new.to_m(), self.default.to_m(), self.name.to_m(), self.len.to_m()]) }
}
impl Subject for call20::AnyNames0 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call20::AnyNames0::input(conv(x)),
      M::Union(1, x) => call20::AnyNames0::output(conv(x)),
      M::Union(2, x) => call20::AnyNames0::last_field_id(conv(x)),
      M::Union(3, x) => call20::AnyNames0::field_type(conv(x)),
      M::Union(4, x) => call20::AnyNames0::result(conv(x)),
      M::Union(5, x) => call20::AnyNames0::inner(conv(x)),
      M::Union(6, x) => call20::AnyNames0::stop(conv(x)),
      M::Union(7, x) => call20::AnyNames0::value(conv(x)),
      M::Union(8, x) => call20::AnyNames0::values(conv(x)),
      M::Union(9, x) => call20::AnyNames0::new(conv(x)),
      M::Union(10, x) => call20::AnyNames0::default(conv(x)),
      M::Union(11, x) => call20::AnyNames0::name(conv(x)),
      M::Union(12, x) => call20::AnyNames0::len(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call20::AnyNames0::input(x) => M::Union(0, Box::new(x.to_m())),
      call20::AnyNames0::output(x) => M::Union(1, Box::new(x.to_m())),
      call20::AnyNames0::last_field_id(x) => M::Union(2, Box::new(x.to_m())),
      call20::AnyNames0::field_type(x) => M::Union(3, Box::new(x.to_m())),
      call20::AnyNames0::result(x) => M::Union(4, Box::new(x.to_m())),
      call20::AnyNames0::inner(x) => M::Union(5, Box::new(x.to_m())),
      call20::AnyNames0::stop(x) => M::Union(6, Box::new(x.to_m())),
      call20::AnyNames0::value(x) => M::Union(7, Box::new(x.to_m())),
      call20::AnyNames0::values(x) => M::Union(8, Box::new(x.to_m())),
      call20::AnyNames0::new(x) => M::Union(9, Box::new(x.to_m())),
      call20::AnyNames0::default(x) => M::Union(10, Box::new(x.to_m())),
      call20::AnyNames0::name(x) => M::Union(11, Box::new(x.to_m())),
      call20::AnyNames0::len(x) => M::Union(12, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call20::RequiredNames13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::RequiredNames13 { index: conv(&f[0]), other: conv(&f[1]), field_id: conv(&f[2]), header: conv(&f[3]), this: conv(&f[4]), me: conv(&f[5]), flag: conv(&f[6]), found: conv(&f[7]), seen: conv(&f[8]), missing: conv(&f[9]), i: conv(&f[10]), x: conv(&f[11]), e: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.index.to_m(), self.other.to_m(), self.field_id.to_m(), self.header.to_m(), self.this.to_m(), self.me.to_m(), self.flag.to_m(), self.found.to_m(), self.seen.to_m(), self.missing.to_m(), self.i.to_m(), self.x.to_m(), self.e.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call20::OptionalNames13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::OptionalNames13 { index: conv(&f[0]), other: conv(&f[1]), field_id: conv(&f[2]), header: conv(&f[3]), this: conv(&f[4]), me: conv(&f[5]), flag: conv(&f[6]), found: conv(&f[7]), seen: conv(&f[8]), missing: conv(&f[9]), i: conv(&f[10]), x: conv(&f[11]), e: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.index.to_m(), self.other.to_m(), self.field_id.to_m(), self.header.to_m(), self.this.to_m(), self.me.to_m(), self.flag.to_m(), self.found.to_m(), self.seen.to_m(), self.missing.to_m(), self.i.to_m(), self.x.to_m(), self.e.to_m()]) }
}
impl Subject for call20::AnyNames13 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call20::AnyNames13::index(conv(x)),
      M::Union(1, x) => call20::AnyNames13::other(conv(x)),
      M::Union(2, x) => call20::AnyNames13::field_id(conv(x)),
      M::Union(3, x) => call20::AnyNames13::header(conv(x)),
      M::Union(4, x) => call20::AnyNames13::this(conv(x)),
      M::Union(5, x) => call20::AnyNames13::me(conv(x)),
      M::Union(6, x) => call20::AnyNames13::flag(conv(x)),
      M::Union(7, x) => call20::AnyNames13::found(conv(x)),
      M::Union(8, x) => call20::AnyNames13::seen(conv(x)),
      M::Union(9, x) => call20::AnyNames13::missing(conv(x)),
      M::Union(10, x) => call20::AnyNames13::i(conv(x)),
      M::Union(11, x) => call20::AnyNames13::x(conv(x)),
      M::Union(12, x) => call20::AnyNames13::e(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call20::AnyNames13::index(x) => M::Union(0, Box::new(x.to_m())),
      call20::AnyNames13::other(x) => M::Union(1, Box::new(x.to_m())),
      call20::AnyNames13::field_id(x) => M::Union(2, Box::new(x.to_m())),
      call20::AnyNames13::header(x) => M::Union(3, Box::new(x.to_m())),
      call20::AnyNames13::this(x) => M::Union(4, Box::new(x.to_m())),
      call20::AnyNames13::me(x) => M::Union(5, Box::new(x.to_m())),
      call20::AnyNames13::flag(x) => M::Union(6, Box::new(x.to_m())),
      call20::AnyNames13::found(x) => M::Union(7, Box::new(x.to_m())),
      call20::AnyNames13::seen(x) => M::Union(8, Box::new(x.to_m())),
      call20::AnyNames13::missing(x) => M::Union(9, Box::new(x.to_m())),
      call20::AnyNames13::i(x) => M::Union(10, Box::new(x.to_m())),
      call20::AnyNames13::x(x) => M::Union(11, Box::new(x.to_m())),
      call20::AnyNames13::e(x) => M::Union(12, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call20::RequiredNames26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::RequiredNames26 { r: conv(&f[0]), f: conv(&f[1]), fmt: conv(&f[2]), clone: conv(&f[3]), eq: conv(&f[4]), from: conv(&f[5]), into: conv(&f[6]), fill_thrift: conv(&f[7]), write_thrift: conv(&f[8]), read_thrift: conv(&f[9]), fill_thrift_field: conv(&f[10]), write_thrift_field: conv(&f[11]), required: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.r.to_m(), self.f.to_m(), self.fmt.to_m(), self.clone.to_m(), self.eq.to_m(), self.from.to_m(), self.into.to_m(), self.fill_thrift.to_m(), self.write_thrift.to_m(), self.read_thrift.to_m(), self.fill_thrift_field.to_m(), self.write_thrift_field.to_m(), self.required.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call20::OptionalNames26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::OptionalNames26 { r: conv(&f[0]), f: conv(&f[1]), fmt: conv(&f[2]), clone: conv(&f[3]), eq: conv(&f[4]), from: conv(&f[5]), into: conv(&f[6]), fill_thrift: conv(&f[7]), write_thrift: conv(&f[8]), read_thrift: conv(&f[9]), fill_thrift_field: conv(&f[10]), write_thrift_field: conv(&f[11]), required: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.r.to_m(), self.f.to_m(), self.fmt.to_m(), self.clone.to_m(), self.eq.to_m(), self.from.to_m(), self.into.to_m(), self.fill_thrift.to_m(), self.write_thrift.to_m(), self.read_thrift.to_m(), self.fill_thrift_field.to_m(), self.write_thrift_field.to_m(), self.required.to_m()]) }
}
impl Subject for call20::AnyNames26 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call20::AnyNames26::r(conv(x)),
      M::Union(1, x) => call20::AnyNames26::f(conv(x)),
      M::Union(2, x) => call20::AnyNames26::fmt(conv(x)),
      M::Union(3, x) => call20::AnyNames26::clone(conv(x)),
      M::Union(4, x) => call20::AnyNames26::eq(conv(x)),
      M::Union(5, x) => call20::AnyNames26::from(conv(x)),
      M::Union(6, x) => call20::AnyNames26::into(conv(x)),
      M::Union(7, x) => call20::AnyNames26::fill_thrift(conv(x)),
      M::Union(8, x) => call20::AnyNames26::write_thrift(conv(x)),
      M::Union(9, x) => call20::AnyNames26::read_thrift(conv(x)),
      M::Union(10, x) => call20::AnyNames26::fill_thrift_field(conv(x)),
      M::Union(11, x) => call20::AnyNames26::write_thrift_field(conv(x)),
      M::Union(12, x) => call20::AnyNames26::required(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call20::AnyNames26::r(x) => M::Union(0, Box::new(x.to_m())),
      call20::AnyNames26::f(x) => M::Union(1, Box::new(x.to_m())),
      call20::AnyNames26::fmt(x) => M::Union(2, Box::new(x.to_m())),
      call20::AnyNames26::clone(x) => M::Union(3, Box::new(x.to_m())),
      call20::AnyNames26::eq(x) => M::Union(4, Box::new(x.to_m())),
      call20::AnyNames26::from(x) => M::Union(5, Box::new(x.to_m())),
      call20::AnyNames26::into(x) => M::Union(6, Box::new(x.to_m())),
      call20::AnyNames26::fill_thrift(x) => M::Union(7, Box::new(x.to_m())),
      call20::AnyNames26::write_thrift(x) => M::Union(8, Box::new(x.to_m())),
      call20::AnyNames26::read_thrift(x) => M::Union(9, Box::new(x.to_m())),
      call20::AnyNames26::fill_thrift_field(x) => M::Union(10, Box::new(x.to_m())),
      call20::AnyNames26::write_thrift_field(x) => M::Union(11, Box::new(x.to_m())),
      call20::AnyNames26::required(x) => M::Union(12, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call20::RequiredNames39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call20::RequiredNames39 { optional: conv(&f[0]), list: conv(&f[1]), set: conv(&f[2]), string: conv(&f[3]), binary: conv(&f[4]), double: conv(&f[5]), union: conv(&f[6]), namespace: conv(&f[7]), thrift: conv(&f[8]), camelCase: conv(&f[9]), UPPER: conv(&f[10]), _hidden: conv(&f[11]), a1: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.optional.to_m(), self.list.to_m(), self.set.to_m(), self.string.to_m(), self.binary.to_m(), self.double.to_m(), self.union.to_m(), self.namespace.to_m(), self.thrift.to_m(), self.camelCase.to_m(), self.UPPER.to_m(), self._hidden.to_m(), self.a1.to_m()]) }
}
pub mod call21 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct OptionalNames39 {
            1: optional i32 optional;
            2: optional bool list;
            3: optional string set;
            4: optional list<i32> string;
            5: optional i32 binary;
            6: optional bool double;
            7: optional string union;
            8: optional list<i32> namespace;
            9: optional i32 thrift;
            10: optional bool camelCase;
            11: optional string UPPER;
            12: optional list<i32> _hidden;
            13: optional i32 a1;
        }
        union AnyNames39 {
            1: i32 optional;
            2: bool list;
            3: string set;
            4: list<i32> string;
            5: i32 binary;
            6: bool double;
            7: string union;
            8: list<i32> namespace;
            9: i32 thrift;
            10: bool camelCase;
            11: string UPPER;
            12: list<i32> _hidden;
            13: i32 a1;
        }
        struct Result { 1: required i32 a; 2: optional bool b; }
        struct Error { 1: required i32 a; 2: optional bool b; }
        struct ThriftError { 1: required i32 a; 2: optional bool b; }
        struct CompactThriftInput { 1: required i32 a; 2: optional bool b; }
        struct FieldName { 1: required i32 a; 2: optional bool b; }
        struct lower { 1: required i32 a; 2: optional bool b; }
        struct T { 1: required i32 a; 2: optional bool b; }
        struct Rc { 1: required i32 a; 2: optional bool b; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call21::OptionalNames39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::OptionalNames39 { optional: conv(&f[0]), list: conv(&f[1]), set: conv(&f[2]), string: conv(&f[3]), binary: conv(&f[4]), double: conv(&f[5]), union: conv(&f[6]), namespace: conv(&f[7]), thrift: conv(&f[8]), camelCase: conv(&f[9]), UPPER: conv(&f[10]), _hidden: conv(&f[11]), a1: conv(&f[12]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.optional.to_m(), self.list.to_m(), self.set.to_m(), self.string.to_m(), self.binary.to_m(), self.double.to_m(), self.union.to_m(), self.namespace.to_m(), self.thrift.to_m(), self.camelCase.to_m(), self.UPPER.to_m(), self._hidden.to_m(), self.a1.to_m()]) }
}
impl Subject for call21::AnyNames39 {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call21::AnyNames39::optional(conv(x)),
      M::Union(1, x) => call21::AnyNames39::list(conv(x)),
      M::Union(2, x) => call21::AnyNames39::set(conv(x)),
      M::Union(3, x) => call21::AnyNames39::string(conv(x)),
      M::Union(4, x) => call21::AnyNames39::binary(conv(x)),
      M::Union(5, x) => call21::AnyNames39::double(conv(x)),
      M::Union(6, x) => call21::AnyNames39::union(conv(x)),
      M::Union(7, x) => call21::AnyNames39::namespace(conv(x)),
      M::Union(8, x) => call21::AnyNames39::thrift(conv(x)),
      M::Union(9, x) => call21::AnyNames39::camelCase(conv(x)),
      M::Union(10, x) => call21::AnyNames39::UPPER(conv(x)),
      M::Union(11, x) => call21::AnyNames39::_hidden(conv(x)),
      M::Union(12, x) => call21::AnyNames39::a1(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call21::AnyNames39::optional(x) => M::Union(0, Box::new(x.to_m())),
      call21::AnyNames39::list(x) => M::Union(1, Box::new(x.to_m())),
      call21::AnyNames39::set(x) => M::Union(2, Box::new(x.to_m())),
      call21::AnyNames39::string(x) => M::Union(3, Box::new(x.to_m())),
      call21::AnyNames39::binary(x) => M::Union(4, Box::new(x.to_m())),
      call21::AnyNames39::double(x) => M::Union(5, Box::new(x.to_m())),
      call21::AnyNames39::union(x) => M::Union(6, Box::new(x.to_m())),
      call21::AnyNames39::namespace(x) => M::Union(7, Box::new(x.to_m())),
      call21::AnyNames39::thrift(x) => M::Union(8, Box::new(x.to_m())),
      call21::AnyNames39::camelCase(x) => M::Union(9, Box::new(x.to_m())),
      call21::AnyNames39::UPPER(x) => M::Union(10, Box::new(x.to_m())),
      call21::AnyNames39::_hidden(x) => M::Union(11, Box::new(x.to_m())),
      call21::AnyNames39::a1(x) => M::Union(12, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call21::Result {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::Result { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::Error {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::Error { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::ThriftError {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::ThriftError { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::CompactThriftInput {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::CompactThriftInput { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::FieldName {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::FieldName { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::lower {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::lower { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::T {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::T { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call21::Rc {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call21::Rc { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call22 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Arc { 1: required i32 a; 2: optional bool b; }
        struct Read { 1: required i32 a; 2: optional bool b; }
        struct Cow { 1: required i32 a; 2: optional bool b; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call22::Arc {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call22::Arc { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call22::Read {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call22::Read { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call22::Cow {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call22::Cow { a: conv(&f[0]), b: conv(&f[1]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m(), self.b.to_m()]) }
}
pub mod call23 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq0b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call23::Seq0b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call23::Seq0b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call24 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq1b {}
        struct Seq1c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call24::Seq1b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call24::Seq1b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call24::Seq1c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call24::Seq1c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call25 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq2b { 1: i32 a }
    }
}
impl Subject for call25::Seq2b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call25::Seq2b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call25::Seq2b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call26 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq3b { A = 1; }
        struct Seq3c {}
    }
}
impl Subject for call26::Seq3b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call26::Seq3b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call26::Seq3c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call26::Seq3c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call27 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq4b
    }
}
pub mod call28 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// one line
        struct Seq5b { 1: optional bool a }
        struct Seq5c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call28::Seq5b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call28::Seq5b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call28::Seq5c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call28::Seq5c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call29 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// one line
        struct Seq6b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call29::Seq6b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call29::Seq6b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call30 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// one line
        union Seq7b { 1: i32 a }
        struct Seq7c {}
    }
}
impl Subject for call30::Seq7b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call30::Seq7b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call30::Seq7b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call30::Seq7c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call30::Seq7c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call31 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// one line
        enum Seq8b { A = 1; }
    }
}
impl Subject for call31::Seq8b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call31::Seq8b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call32 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// one line
        namespace rust Seq9b
        struct Seq9c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call32::Seq9c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call32::Seq9c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call33 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /** block
           of two lines */
        struct Seq10b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call33::Seq10b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call33::Seq10b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call34 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /** block
           of two lines */
        struct Seq11b {}
        struct Seq11c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call34::Seq11b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call34::Seq11b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call34::Seq11c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call34::Seq11c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call35 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /** block
           of two lines */
        union Seq12b { 1: i32 a }
    }
}
impl Subject for call35::Seq12b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call35::Seq12b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call35::Seq12b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call36 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /** block
           of two lines */
        enum Seq13b { A = 1; }
        struct Seq13c {}
    }
}
impl Subject for call36::Seq13b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call36::Seq13b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call36::Seq13c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call36::Seq13c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call37 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /** block
           of two lines */
        namespace rust Seq14b
    }
}
pub mod call38 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        // plain
        struct Seq15b { 1: optional bool a }
        struct Seq15c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call38::Seq15b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call38::Seq15b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call38::Seq15c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call38::Seq15c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call39 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        // plain
        struct Seq16b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call39::Seq16b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call39::Seq16b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call40 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        // plain
        union Seq17b { 1: i32 a }
        struct Seq17c {}
    }
}
impl Subject for call40::Seq17b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call40::Seq17b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call40::Seq17b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call40::Seq17c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call40::Seq17c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call41 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        // plain
        enum Seq18b { A = 1; }
    }
}
impl Subject for call41::Seq18b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call41::Seq18b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call42 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        // plain
        namespace rust Seq19b
        struct Seq19c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call42::Seq19c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call42::Seq19c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call43 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /* plain block */
        struct Seq20b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call43::Seq20b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call43::Seq20b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call44 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /* plain block */
        struct Seq21b {}
        struct Seq21c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call44::Seq21b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call44::Seq21b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call44::Seq21c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call44::Seq21c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call45 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /* plain block */
        union Seq22b { 1: i32 a }
    }
}
impl Subject for call45::Seq22b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call45::Seq22b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call45::Seq22b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call46 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /* plain block */
        enum Seq23b { A = 1; }
        struct Seq23c {}
    }
}
impl Subject for call46::Seq23b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call46::Seq23b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call46::Seq23c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call46::Seq23c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call47 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /* plain block */
        namespace rust Seq24b
    }
}
pub mod call48 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// first
        /// second
        /** third */
        struct Seq25b { 1: optional bool a }
        struct Seq25c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call48::Seq25b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call48::Seq25b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call48::Seq25c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call48::Seq25c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call49 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// first
        /// second
        /** third */
        struct Seq26b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call49::Seq26b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call49::Seq26b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call50 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// first
        /// second
        /** third */
        union Seq27b { 1: i32 a }
        struct Seq27c {}
    }
}
impl Subject for call50::Seq27b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call50::Seq27b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call50::Seq27b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call50::Seq27c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call50::Seq27c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call51 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// first
        /// second
        /** third */
        enum Seq28b { A = 1; }
    }
}
impl Subject for call51::Seq28b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call51::Seq28b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call52 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        /// first
        /// second
        /** third */
        namespace rust Seq29b
        struct Seq29c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call52::Seq29c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call52::Seq29c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call53 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq30a { 1: optional bool a }
        struct Seq30b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call53::Seq30a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call53::Seq30a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call53::Seq30b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call53::Seq30b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call54 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq31a { 1: optional bool a }
        struct Seq31b {}
        struct Seq31c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call54::Seq31a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call54::Seq31a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call54::Seq31b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call54::Seq31b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call54::Seq31c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call54::Seq31c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call55 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq32a { 1: optional bool a }
        union Seq32b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call55::Seq32a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call55::Seq32a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call55::Seq32b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call55::Seq32b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call55::Seq32b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call56 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq33a { 1: optional bool a }
        enum Seq33b { A = 1; }
        struct Seq33c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call56::Seq33a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call56::Seq33a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call56::Seq33b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call56::Seq33b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call56::Seq33c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call56::Seq33c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call57 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq34a { 1: optional bool a }
        namespace rust Seq34b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call57::Seq34a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call57::Seq34a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call58 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq35a { 1: optional bool a }
        /// one line
        struct Seq35b { 1: optional bool a }
        struct Seq35c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call58::Seq35a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call58::Seq35a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call58::Seq35b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call58::Seq35b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call58::Seq35c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call58::Seq35c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call59 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq36a { 1: optional bool a }
        /// one line
        struct Seq36b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call59::Seq36a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call59::Seq36a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call59::Seq36b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call59::Seq36b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call60 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq37a { 1: optional bool a }
        /// one line
        union Seq37b { 1: i32 a }
        struct Seq37c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call60::Seq37a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call60::Seq37a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call60::Seq37b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call60::Seq37b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call60::Seq37b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call60::Seq37c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call60::Seq37c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call61 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq38a { 1: optional bool a }
        /// one line
        enum Seq38b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call61::Seq38a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call61::Seq38a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call61::Seq38b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call61::Seq38b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call62 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq39a { 1: optional bool a }
        /// one line
        namespace rust Seq39b
        struct Seq39c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call62::Seq39a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call62::Seq39a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call62::Seq39c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call62::Seq39c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call63 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq40a { 1: optional bool a }
        /** block
           of two lines */
        struct Seq40b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call63::Seq40a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call63::Seq40a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call63::Seq40b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call63::Seq40b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call64 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq41a { 1: optional bool a }
        /** block
           of two lines */
        struct Seq41b {}
        struct Seq41c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call64::Seq41a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call64::Seq41a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call64::Seq41b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call64::Seq41b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call64::Seq41c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call64::Seq41c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call65 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq42a { 1: optional bool a }
        /** block
           of two lines */
        union Seq42b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call65::Seq42a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call65::Seq42a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call65::Seq42b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call65::Seq42b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call65::Seq42b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call66 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq43a { 1: optional bool a }
        /** block
           of two lines */
        enum Seq43b { A = 1; }
        struct Seq43c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call66::Seq43a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call66::Seq43a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call66::Seq43b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call66::Seq43b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call66::Seq43c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call66::Seq43c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call67 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq44a { 1: optional bool a }
        /** block
           of two lines */
        namespace rust Seq44b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call67::Seq44a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call67::Seq44a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call68 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq45a { 1: optional bool a }
        // plain
        struct Seq45b { 1: optional bool a }
        struct Seq45c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call68::Seq45a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call68::Seq45a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call68::Seq45b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call68::Seq45b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call68::Seq45c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call68::Seq45c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call69 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq46a { 1: optional bool a }
        // plain
        struct Seq46b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call69::Seq46a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call69::Seq46a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call69::Seq46b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call69::Seq46b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call70 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq47a { 1: optional bool a }
        // plain
        union Seq47b { 1: i32 a }
        struct Seq47c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call70::Seq47a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call70::Seq47a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call70::Seq47b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call70::Seq47b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call70::Seq47b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call70::Seq47c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call70::Seq47c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call71 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq48a { 1: optional bool a }
        // plain
        enum Seq48b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call71::Seq48a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call71::Seq48a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call71::Seq48b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call71::Seq48b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call72 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq49a { 1: optional bool a }
        // plain
        namespace rust Seq49b
        struct Seq49c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call72::Seq49a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call72::Seq49a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call72::Seq49c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call72::Seq49c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call73 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq50a { 1: optional bool a }
        /* plain block */
        struct Seq50b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call73::Seq50a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call73::Seq50a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call73::Seq50b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call73::Seq50b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call74 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq51a { 1: optional bool a }
        /* plain block */
        struct Seq51b {}
        struct Seq51c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call74::Seq51a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call74::Seq51a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call74::Seq51b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call74::Seq51b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call74::Seq51c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call74::Seq51c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call75 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq52a { 1: optional bool a }
        /* plain block */
        union Seq52b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call75::Seq52a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call75::Seq52a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call75::Seq52b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call75::Seq52b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call75::Seq52b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call76 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq53a { 1: optional bool a }
        /* plain block */
        enum Seq53b { A = 1; }
        struct Seq53c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call76::Seq53a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call76::Seq53a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call76::Seq53b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call76::Seq53b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call76::Seq53c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call76::Seq53c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call77 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq54a { 1: optional bool a }
        /* plain block */
        namespace rust Seq54b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call77::Seq54a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call77::Seq54a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call78 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq55a { 1: optional bool a }
        /// first
        /// second
        /** third */
        struct Seq55b { 1: optional bool a }
        struct Seq55c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call78::Seq55a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call78::Seq55a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call78::Seq55b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call78::Seq55b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call78::Seq55c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call78::Seq55c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call79 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq56a { 1: optional bool a }
        /// first
        /// second
        /** third */
        struct Seq56b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call79::Seq56a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call79::Seq56a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call79::Seq56b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call79::Seq56b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call80 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq57a { 1: optional bool a }
        /// first
        /// second
        /** third */
        union Seq57b { 1: i32 a }
        struct Seq57c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call80::Seq57a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call80::Seq57a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call80::Seq57b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call80::Seq57b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call80::Seq57b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call80::Seq57c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call80::Seq57c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call81 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq58a { 1: optional bool a }
        /// first
        /// second
        /** third */
        enum Seq58b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call81::Seq58a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call81::Seq58a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
impl Subject for call81::Seq58b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call81::Seq58b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call82 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq59a { 1: optional bool a }
        /// first
        /// second
        /** third */
        namespace rust Seq59b
        struct Seq59c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call82::Seq59a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call82::Seq59a { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call82::Seq59c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call82::Seq59c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call83 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq60a {}
        struct Seq60b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call83::Seq60a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call83::Seq60a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call83::Seq60b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call83::Seq60b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call84 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq61a {}
        struct Seq61b {}
        struct Seq61c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call84::Seq61a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call84::Seq61a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call84::Seq61b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call84::Seq61b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call84::Seq61c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call84::Seq61c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call85 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq62a {}
        union Seq62b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call85::Seq62a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call85::Seq62a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call85::Seq62b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call85::Seq62b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call85::Seq62b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call86 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq63a {}
        enum Seq63b { A = 1; }
        struct Seq63c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call86::Seq63a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call86::Seq63a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call86::Seq63b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call86::Seq63b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call86::Seq63c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call86::Seq63c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call87 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq64a {}
        namespace rust Seq64b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call87::Seq64a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call87::Seq64a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call88 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq65a {}
        /// one line
        struct Seq65b { 1: optional bool a }
        struct Seq65c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call88::Seq65a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call88::Seq65a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call88::Seq65b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call88::Seq65b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call88::Seq65c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call88::Seq65c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call89 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq66a {}
        /// one line
        struct Seq66b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call89::Seq66a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call89::Seq66a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call89::Seq66b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call89::Seq66b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call90 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq67a {}
        /// one line
        union Seq67b { 1: i32 a }
        struct Seq67c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call90::Seq67a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call90::Seq67a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call90::Seq67b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call90::Seq67b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call90::Seq67b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call90::Seq67c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call90::Seq67c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call91 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq68a {}
        /// one line
        enum Seq68b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call91::Seq68a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call91::Seq68a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call91::Seq68b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call91::Seq68b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call92 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq69a {}
        /// one line
        namespace rust Seq69b
        struct Seq69c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call92::Seq69a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call92::Seq69a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call92::Seq69c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call92::Seq69c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call93 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq70a {}
        /** block
           of two lines */
        struct Seq70b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call93::Seq70a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call93::Seq70a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call93::Seq70b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call93::Seq70b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call94 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq71a {}
        /** block
           of two lines */
        struct Seq71b {}
        struct Seq71c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call94::Seq71a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call94::Seq71a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call94::Seq71b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call94::Seq71b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call94::Seq71c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call94::Seq71c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call95 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq72a {}
        /** block
           of two lines */
        union Seq72b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call95::Seq72a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call95::Seq72a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call95::Seq72b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call95::Seq72b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call95::Seq72b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call96 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq73a {}
        /** block
           of two lines */
        enum Seq73b { A = 1; }
        struct Seq73c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call96::Seq73a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call96::Seq73a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call96::Seq73b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call96::Seq73b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call96::Seq73c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call96::Seq73c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call97 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq74a {}
        /** block
           of two lines */
        namespace rust Seq74b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call97::Seq74a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call97::Seq74a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call98 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq75a {}
        // plain
        struct Seq75b { 1: optional bool a }
        struct Seq75c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call98::Seq75a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call98::Seq75a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call98::Seq75b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call98::Seq75b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call98::Seq75c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call98::Seq75c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call99 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq76a {}
        // plain
        struct Seq76b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call99::Seq76a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call99::Seq76a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call99::Seq76b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call99::Seq76b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call100 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq77a {}
        // plain
        union Seq77b { 1: i32 a }
        struct Seq77c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call100::Seq77a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call100::Seq77a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call100::Seq77b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call100::Seq77b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call100::Seq77b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call100::Seq77c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call100::Seq77c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call101 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq78a {}
        // plain
        enum Seq78b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call101::Seq78a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call101::Seq78a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call101::Seq78b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call101::Seq78b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call102 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq79a {}
        // plain
        namespace rust Seq79b
        struct Seq79c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call102::Seq79a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call102::Seq79a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call102::Seq79c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call102::Seq79c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call103 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq80a {}
        /* plain block */
        struct Seq80b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call103::Seq80a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call103::Seq80a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call103::Seq80b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call103::Seq80b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call104 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq81a {}
        /* plain block */
        struct Seq81b {}
        struct Seq81c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call104::Seq81a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call104::Seq81a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call104::Seq81b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call104::Seq81b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call104::Seq81c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call104::Seq81c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call105 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq82a {}
        /* plain block */
        union Seq82b { 1: i32 a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call105::Seq82a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call105::Seq82a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call105::Seq82b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call105::Seq82b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call105::Seq82b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call106 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq83a {}
        /* plain block */
        enum Seq83b { A = 1; }
        struct Seq83c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call106::Seq83a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call106::Seq83a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call106::Seq83b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call106::Seq83b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call106::Seq83c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call106::Seq83c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call107 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq84a {}
        /* plain block */
        namespace rust Seq84b
    }
}
#[allow(clippy::needless_update)]
impl Subject for call107::Seq84a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call107::Seq84a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call108 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq85a {}
        /// first
        /// second
        /** third */
        struct Seq85b { 1: optional bool a }
        struct Seq85c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call108::Seq85a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call108::Seq85a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call108::Seq85b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call108::Seq85b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call108::Seq85c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call108::Seq85c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call109 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq86a {}
        /// first
        /// second
        /** third */
        struct Seq86b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call109::Seq86a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call109::Seq86a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call109::Seq86b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call109::Seq86b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call110 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq87a {}
        /// first
        /// second
        /** third */
        union Seq87b { 1: i32 a }
        struct Seq87c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call110::Seq87a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call110::Seq87a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call110::Seq87b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call110::Seq87b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call110::Seq87b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call110::Seq87c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call110::Seq87c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call111 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq88a {}
        /// first
        /// second
        /** third */
        enum Seq88b { A = 1; }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call111::Seq88a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call111::Seq88a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
impl Subject for call111::Seq88b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call111::Seq88b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call112 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Seq89a {}
        /// first
        /// second
        /** third */
        namespace rust Seq89b
        struct Seq89c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call112::Seq89a {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call112::Seq89a {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call112::Seq89c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call112::Seq89c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call113 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq90a { 1: i32 a }
        struct Seq90b { 1: optional bool a }
    }
}
impl Subject for call113::Seq90a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call113::Seq90a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call113::Seq90a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call113::Seq90b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call113::Seq90b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call114 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq91a { 1: i32 a }
        struct Seq91b {}
        struct Seq91c {}
    }
}
impl Subject for call114::Seq91a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call114::Seq91a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call114::Seq91a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call114::Seq91b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call114::Seq91b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call114::Seq91c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call114::Seq91c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call115 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq92a { 1: i32 a }
        union Seq92b { 1: i32 a }
    }
}
impl Subject for call115::Seq92a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call115::Seq92a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call115::Seq92a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call115::Seq92b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call115::Seq92b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call115::Seq92b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call116 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq93a { 1: i32 a }
        enum Seq93b { A = 1; }
        struct Seq93c {}
    }
}
impl Subject for call116::Seq93a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call116::Seq93a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call116::Seq93a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call116::Seq93b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call116::Seq93b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call116::Seq93c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call116::Seq93c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call117 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq94a { 1: i32 a }
        namespace rust Seq94b
    }
}
impl Subject for call117::Seq94a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call117::Seq94a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call117::Seq94a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call118 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq95a { 1: i32 a }
        /// one line
        struct Seq95b { 1: optional bool a }
        struct Seq95c {}
    }
}
impl Subject for call118::Seq95a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call118::Seq95a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call118::Seq95a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call118::Seq95b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call118::Seq95b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call118::Seq95c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call118::Seq95c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call119 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq96a { 1: i32 a }
        /// one line
        struct Seq96b {}
    }
}
impl Subject for call119::Seq96a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call119::Seq96a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call119::Seq96a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call119::Seq96b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call119::Seq96b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call120 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq97a { 1: i32 a }
        /// one line
        union Seq97b { 1: i32 a }
        struct Seq97c {}
    }
}
impl Subject for call120::Seq97a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call120::Seq97a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call120::Seq97a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call120::Seq97b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call120::Seq97b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call120::Seq97b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call120::Seq97c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call120::Seq97c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call121 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq98a { 1: i32 a }
        /// one line
        enum Seq98b { A = 1; }
    }
}
impl Subject for call121::Seq98a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call121::Seq98a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call121::Seq98a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call121::Seq98b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call121::Seq98b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call122 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq99a { 1: i32 a }
        /// one line
        namespace rust Seq99b
        struct Seq99c {}
    }
}
impl Subject for call122::Seq99a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call122::Seq99a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call122::Seq99a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call122::Seq99c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call122::Seq99c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call123 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq100a { 1: i32 a }
        /** block
           of two lines */
        struct Seq100b { 1: optional bool a }
    }
}
impl Subject for call123::Seq100a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call123::Seq100a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call123::Seq100a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call123::Seq100b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call123::Seq100b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call124 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq101a { 1: i32 a }
        /** block
           of two lines */
        struct Seq101b {}
        struct Seq101c {}
    }
}
impl Subject for call124::Seq101a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call124::Seq101a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call124::Seq101a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call124::Seq101b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call124::Seq101b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call124::Seq101c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call124::Seq101c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call125 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq102a { 1: i32 a }
        /** block
           of two lines */
        union Seq102b { 1: i32 a }
    }
}
impl Subject for call125::Seq102a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call125::Seq102a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call125::Seq102a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call125::Seq102b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call125::Seq102b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call125::Seq102b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call126 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq103a { 1: i32 a }
        /** block
           of two lines */
        enum Seq103b { A = 1; }
        struct Seq103c {}
    }
}
impl Subject for call126::Seq103a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call126::Seq103a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call126::Seq103a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call126::Seq103b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call126::Seq103b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call126::Seq103c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call126::Seq103c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call127 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq104a { 1: i32 a }
        /** block
           of two lines */
        namespace rust Seq104b
    }
}
impl Subject for call127::Seq104a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call127::Seq104a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call127::Seq104a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call128 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq105a { 1: i32 a }
        // plain
        struct Seq105b { 1: optional bool a }
        struct Seq105c {}
    }
}
impl Subject for call128::Seq105a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call128::Seq105a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call128::Seq105a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call128::Seq105b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call128::Seq105b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call128::Seq105c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call128::Seq105c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call129 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq106a { 1: i32 a }
        // plain
        struct Seq106b {}
    }
}
impl Subject for call129::Seq106a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call129::Seq106a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call129::Seq106a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call129::Seq106b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call129::Seq106b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call130 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq107a { 1: i32 a }
        // plain
        union Seq107b { 1: i32 a }
        struct Seq107c {}
    }
}
impl Subject for call130::Seq107a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call130::Seq107a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call130::Seq107a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call130::Seq107b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call130::Seq107b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call130::Seq107b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call130::Seq107c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call130::Seq107c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call131 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq108a { 1: i32 a }
        // plain
        enum Seq108b { A = 1; }
    }
}
impl Subject for call131::Seq108a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call131::Seq108a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call131::Seq108a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call131::Seq108b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call131::Seq108b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call132 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq109a { 1: i32 a }
        // plain
        namespace rust Seq109b
        struct Seq109c {}
    }
}
impl Subject for call132::Seq109a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call132::Seq109a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call132::Seq109a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call132::Seq109c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call132::Seq109c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call133 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq110a { 1: i32 a }
        /* plain block */
        struct Seq110b { 1: optional bool a }
    }
}
impl Subject for call133::Seq110a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call133::Seq110a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call133::Seq110a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call133::Seq110b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call133::Seq110b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call134 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq111a { 1: i32 a }
        /* plain block */
        struct Seq111b {}
        struct Seq111c {}
    }
}
impl Subject for call134::Seq111a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call134::Seq111a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call134::Seq111a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call134::Seq111b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call134::Seq111b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call134::Seq111c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call134::Seq111c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call135 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq112a { 1: i32 a }
        /* plain block */
        union Seq112b { 1: i32 a }
    }
}
impl Subject for call135::Seq112a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call135::Seq112a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call135::Seq112a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call135::Seq112b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call135::Seq112b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call135::Seq112b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call136 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq113a { 1: i32 a }
        /* plain block */
        enum Seq113b { A = 1; }
        struct Seq113c {}
    }
}
impl Subject for call136::Seq113a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call136::Seq113a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call136::Seq113a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call136::Seq113b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call136::Seq113b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call136::Seq113c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call136::Seq113c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call137 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq114a { 1: i32 a }
        /* plain block */
        namespace rust Seq114b
    }
}
impl Subject for call137::Seq114a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call137::Seq114a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call137::Seq114a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call138 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq115a { 1: i32 a }
        /// first
        /// second
        /** third */
        struct Seq115b { 1: optional bool a }
        struct Seq115c {}
    }
}
impl Subject for call138::Seq115a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call138::Seq115a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call138::Seq115a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call138::Seq115b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call138::Seq115b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call138::Seq115c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call138::Seq115c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call139 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq116a { 1: i32 a }
        /// first
        /// second
        /** third */
        struct Seq116b {}
    }
}
impl Subject for call139::Seq116a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call139::Seq116a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call139::Seq116a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call139::Seq116b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call139::Seq116b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call140 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq117a { 1: i32 a }
        /// first
        /// second
        /** third */
        union Seq117b { 1: i32 a }
        struct Seq117c {}
    }
}
impl Subject for call140::Seq117a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call140::Seq117a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call140::Seq117a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call140::Seq117b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call140::Seq117b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call140::Seq117b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call140::Seq117c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call140::Seq117c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call141 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq118a { 1: i32 a }
        /// first
        /// second
        /** third */
        enum Seq118b { A = 1; }
    }
}
impl Subject for call141::Seq118a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call141::Seq118a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call141::Seq118a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
impl Subject for call141::Seq118b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call141::Seq118b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call142 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        union Seq119a { 1: i32 a }
        /// first
        /// second
        /** third */
        namespace rust Seq119b
        struct Seq119c {}
    }
}
impl Subject for call142::Seq119a {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call142::Seq119a::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call142::Seq119a::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call142::Seq119c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call142::Seq119c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call143 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq120a { A = 1; }
        struct Seq120b { 1: optional bool a }
    }
}
impl Subject for call143::Seq120a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call143::Seq120a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call143::Seq120b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call143::Seq120b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call144 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq121a { A = 1; }
        struct Seq121b {}
        struct Seq121c {}
    }
}
impl Subject for call144::Seq121a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call144::Seq121a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call144::Seq121b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call144::Seq121b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call144::Seq121c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call144::Seq121c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call145 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq122a { A = 1; }
        union Seq122b { 1: i32 a }
    }
}
impl Subject for call145::Seq122a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call145::Seq122a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call145::Seq122b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call145::Seq122b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call145::Seq122b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call146 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq123a { A = 1; }
        enum Seq123b { A = 1; }
        struct Seq123c {}
    }
}
impl Subject for call146::Seq123a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call146::Seq123a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call146::Seq123b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call146::Seq123b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call146::Seq123c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call146::Seq123c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call147 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq124a { A = 1; }
        namespace rust Seq124b
    }
}
impl Subject for call147::Seq124a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call147::Seq124a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call148 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq125a { A = 1; }
        /// one line
        struct Seq125b { 1: optional bool a }
        struct Seq125c {}
    }
}
impl Subject for call148::Seq125a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call148::Seq125a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call148::Seq125b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call148::Seq125b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call148::Seq125c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call148::Seq125c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call149 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq126a { A = 1; }
        /// one line
        struct Seq126b {}
    }
}
impl Subject for call149::Seq126a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call149::Seq126a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call149::Seq126b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call149::Seq126b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call150 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq127a { A = 1; }
        /// one line
        union Seq127b { 1: i32 a }
        struct Seq127c {}
    }
}
impl Subject for call150::Seq127a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call150::Seq127a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call150::Seq127b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call150::Seq127b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call150::Seq127b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call150::Seq127c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call150::Seq127c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call151 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq128a { A = 1; }
        /// one line
        enum Seq128b { A = 1; }
    }
}
impl Subject for call151::Seq128a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call151::Seq128a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call151::Seq128b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call151::Seq128b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call152 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq129a { A = 1; }
        /// one line
        namespace rust Seq129b
        struct Seq129c {}
    }
}
impl Subject for call152::Seq129a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call152::Seq129a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call152::Seq129c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call152::Seq129c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call153 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq130a { A = 1; }
        /** block
           of two lines */
        struct Seq130b { 1: optional bool a }
    }
}
impl Subject for call153::Seq130a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call153::Seq130a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call153::Seq130b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call153::Seq130b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call154 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq131a { A = 1; }
        /** block
           of two lines */
        struct Seq131b {}
        struct Seq131c {}
    }
}
impl Subject for call154::Seq131a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call154::Seq131a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call154::Seq131b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call154::Seq131b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call154::Seq131c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call154::Seq131c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call155 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq132a { A = 1; }
        /** block
           of two lines */
        union Seq132b { 1: i32 a }
    }
}
impl Subject for call155::Seq132a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call155::Seq132a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call155::Seq132b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call155::Seq132b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call155::Seq132b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call156 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq133a { A = 1; }
        /** block
           of two lines */
        enum Seq133b { A = 1; }
        struct Seq133c {}
    }
}
impl Subject for call156::Seq133a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call156::Seq133a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call156::Seq133b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call156::Seq133b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call156::Seq133c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call156::Seq133c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call157 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq134a { A = 1; }
        /** block
           of two lines */
        namespace rust Seq134b
    }
}
impl Subject for call157::Seq134a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call157::Seq134a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call158 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq135a { A = 1; }
        // plain
        struct Seq135b { 1: optional bool a }
        struct Seq135c {}
    }
}
impl Subject for call158::Seq135a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call158::Seq135a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call158::Seq135b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call158::Seq135b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call158::Seq135c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call158::Seq135c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call159 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq136a { A = 1; }
        // plain
        struct Seq136b {}
    }
}
impl Subject for call159::Seq136a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call159::Seq136a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call159::Seq136b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call159::Seq136b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call160 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq137a { A = 1; }
        // plain
        union Seq137b { 1: i32 a }
        struct Seq137c {}
    }
}
impl Subject for call160::Seq137a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call160::Seq137a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call160::Seq137b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call160::Seq137b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call160::Seq137b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call160::Seq137c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call160::Seq137c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call161 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq138a { A = 1; }
        // plain
        enum Seq138b { A = 1; }
    }
}
impl Subject for call161::Seq138a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call161::Seq138a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call161::Seq138b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call161::Seq138b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call162 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq139a { A = 1; }
        // plain
        namespace rust Seq139b
        struct Seq139c {}
    }
}
impl Subject for call162::Seq139a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call162::Seq139a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call162::Seq139c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call162::Seq139c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call163 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq140a { A = 1; }
        /* plain block */
        struct Seq140b { 1: optional bool a }
    }
}
impl Subject for call163::Seq140a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call163::Seq140a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call163::Seq140b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call163::Seq140b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call164 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq141a { A = 1; }
        /* plain block */
        struct Seq141b {}
        struct Seq141c {}
    }
}
impl Subject for call164::Seq141a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call164::Seq141a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call164::Seq141b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call164::Seq141b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call164::Seq141c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call164::Seq141c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call165 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq142a { A = 1; }
        /* plain block */
        union Seq142b { 1: i32 a }
    }
}
impl Subject for call165::Seq142a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call165::Seq142a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call165::Seq142b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call165::Seq142b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call165::Seq142b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call166 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq143a { A = 1; }
        /* plain block */
        enum Seq143b { A = 1; }
        struct Seq143c {}
    }
}
impl Subject for call166::Seq143a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call166::Seq143a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call166::Seq143b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call166::Seq143b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call166::Seq143c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call166::Seq143c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call167 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq144a { A = 1; }
        /* plain block */
        namespace rust Seq144b
    }
}
impl Subject for call167::Seq144a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call167::Seq144a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call168 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq145a { A = 1; }
        /// first
        /// second
        /** third */
        struct Seq145b { 1: optional bool a }
        struct Seq145c {}
    }
}
impl Subject for call168::Seq145a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call168::Seq145a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call168::Seq145b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call168::Seq145b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call168::Seq145c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call168::Seq145c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call169 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq146a { A = 1; }
        /// first
        /// second
        /** third */
        struct Seq146b {}
    }
}
impl Subject for call169::Seq146a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call169::Seq146a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call169::Seq146b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call169::Seq146b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call170 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq147a { A = 1; }
        /// first
        /// second
        /** third */
        union Seq147b { 1: i32 a }
        struct Seq147c {}
    }
}
impl Subject for call170::Seq147a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call170::Seq147a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call170::Seq147b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call170::Seq147b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call170::Seq147b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call170::Seq147c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call170::Seq147c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call171 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq148a { A = 1; }
        /// first
        /// second
        /** third */
        enum Seq148b { A = 1; }
    }
}
impl Subject for call171::Seq148a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call171::Seq148a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
impl Subject for call171::Seq148b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call171::Seq148b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call172 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        enum Seq149a { A = 1; }
        /// first
        /// second
        /** third */
        namespace rust Seq149b
        struct Seq149c {}
    }
}
impl Subject for call172::Seq149a { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call172::Seq149a(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call172::Seq149c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call172::Seq149c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call173 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq150a
        struct Seq150b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call173::Seq150b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call173::Seq150b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call174 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq151a
        struct Seq151b {}
        struct Seq151c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call174::Seq151b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call174::Seq151b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call174::Seq151c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call174::Seq151c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call175 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq152a
        union Seq152b { 1: i32 a }
    }
}
impl Subject for call175::Seq152b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call175::Seq152b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call175::Seq152b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call176 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq153a
        enum Seq153b { A = 1; }
        struct Seq153c {}
    }
}
impl Subject for call176::Seq153b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call176::Seq153b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call176::Seq153c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call176::Seq153c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call177 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq154a
        namespace rust Seq154b
    }
}
pub mod call178 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq155a
        /// one line
        struct Seq155b { 1: optional bool a }
        struct Seq155c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call178::Seq155b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call178::Seq155b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call178::Seq155c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call178::Seq155c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call179 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq156a
        /// one line
        struct Seq156b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call179::Seq156b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call179::Seq156b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call180 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq157a
        /// one line
        union Seq157b { 1: i32 a }
        struct Seq157c {}
    }
}
impl Subject for call180::Seq157b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call180::Seq157b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call180::Seq157b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call180::Seq157c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call180::Seq157c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call181 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq158a
        /// one line
        enum Seq158b { A = 1; }
    }
}
impl Subject for call181::Seq158b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call181::Seq158b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call182 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq159a
        /// one line
        namespace rust Seq159b
        struct Seq159c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call182::Seq159c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call182::Seq159c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call183 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq160a
        /** block
           of two lines */
        struct Seq160b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call183::Seq160b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call183::Seq160b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call184 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq161a
        /** block
           of two lines */
        struct Seq161b {}
        struct Seq161c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call184::Seq161b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call184::Seq161b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call184::Seq161c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call184::Seq161c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call185 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq162a
        /** block
           of two lines */
        union Seq162b { 1: i32 a }
    }
}
impl Subject for call185::Seq162b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call185::Seq162b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call185::Seq162b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call186 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq163a
        /** block
           of two lines */
        enum Seq163b { A = 1; }
        struct Seq163c {}
    }
}
impl Subject for call186::Seq163b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call186::Seq163b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call186::Seq163c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call186::Seq163c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call187 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq164a
        /** block
           of two lines */
        namespace rust Seq164b
    }
}
pub mod call188 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq165a
        // plain
        struct Seq165b { 1: optional bool a }
        struct Seq165c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call188::Seq165b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call188::Seq165b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call188::Seq165c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call188::Seq165c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call189 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq166a
        // plain
        struct Seq166b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call189::Seq166b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call189::Seq166b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call190 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq167a
        // plain
        union Seq167b { 1: i32 a }
        struct Seq167c {}
    }
}
impl Subject for call190::Seq167b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call190::Seq167b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call190::Seq167b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call190::Seq167c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call190::Seq167c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call191 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq168a
        // plain
        enum Seq168b { A = 1; }
    }
}
impl Subject for call191::Seq168b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call191::Seq168b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call192 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq169a
        // plain
        namespace rust Seq169b
        struct Seq169c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call192::Seq169c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call192::Seq169c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call193 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq170a
        /* plain block */
        struct Seq170b { 1: optional bool a }
    }
}
#[allow(clippy::needless_update)]
impl Subject for call193::Seq170b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call193::Seq170b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
pub mod call194 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq171a
        /* plain block */
        struct Seq171b {}
        struct Seq171c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call194::Seq171b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call194::Seq171b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call194::Seq171c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call194::Seq171c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call195 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq172a
        /* plain block */
        union Seq172b { 1: i32 a }
    }
}
impl Subject for call195::Seq172b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call195::Seq172b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call195::Seq172b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
pub mod call196 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq173a
        /* plain block */
        enum Seq173b { A = 1; }
        struct Seq173c {}
    }
}
impl Subject for call196::Seq173b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call196::Seq173b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
#[allow(clippy::needless_update)]
impl Subject for call196::Seq173c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call196::Seq173c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call197 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq174a
        /* plain block */
        namespace rust Seq174b
    }
}
pub mod call198 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq175a
        /// first
        /// second
        /** third */
        struct Seq175b { 1: optional bool a }
        struct Seq175c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call198::Seq175b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    call198::Seq175b { a: conv(&f[0]), ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![self.a.to_m()]) }
}
#[allow(clippy::needless_update)]
impl Subject for call198::Seq175c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call198::Seq175c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call199 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq176a
        /// first
        /// second
        /** third */
        struct Seq176b {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call199::Seq176b {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call199::Seq176b {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call200 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq177a
        /// first
        /// second
        /** third */
        union Seq177b { 1: i32 a }
        struct Seq177c {}
    }
}
impl Subject for call200::Seq177b {
  fn from_m(m: &M) -> Self {
    match m {
      M::Union(0, x) => call200::Seq177b::a(conv(x)),
      _ => cannot(m),
    }
  }
  fn to_m(&self) -> M {
    match self {
      call200::Seq177b::a(x) => M::Union(0, Box::new(x.to_m())),
      #[allow(unreachable_patterns)]
      other => M::Alien(format!("{other:?}")),
    }
  }
}
#[allow(clippy::needless_update)]
impl Subject for call200::Seq177c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call200::Seq177c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call201 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq178a
        /// first
        /// second
        /** third */
        enum Seq178b { A = 1; }
    }
}
impl Subject for call201::Seq178b { fn from_m(m: &M) -> Self { if let M::I32(x) = m { call201::Seq178b(conv(&M::I32(*x))) } else { cannot(m) } } fn to_m(&self) -> M { self.0.to_m() } }
pub mod call202 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        namespace rust Seq179a
        /// first
        /// second
        /** third */
        namespace rust Seq179b
        struct Seq179c {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call202::Seq179c {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call202::Seq179c {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call203 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Many40x0 {}
        struct Many40x1 {}
        struct Many40x2 {}
        struct Many40x3 {}
        struct Many40x4 {}
        struct Many40x5 {}
        struct Many40x6 {}
        struct Many40x7 {}
        struct Many40x8 {}
        struct Many40x9 {}
        struct Many40x10 {}
        struct Many40x11 {}
        struct Many40x12 {}
        struct Many40x13 {}
        struct Many40x14 {}
        struct Many40x15 {}
        struct Many40x16 {}
        struct Many40x17 {}
        struct Many40x18 {}
        struct Many40x19 {}
        struct Many40x20 {}
        struct Many40x21 {}
        struct Many40x22 {}
        struct Many40x23 {}
        struct Many40x24 {}
        struct Many40x25 {}
        struct Many40x26 {}
        struct Many40x27 {}
        struct Many40x28 {}
        struct Many40x29 {}
        struct Many40x30 {}
        struct Many40x31 {}
        struct Many40x32 {}
        struct Many40x33 {}
        struct Many40x34 {}
        struct Many40x35 {}
        struct Many40x36 {}
        struct Many40x37 {}
        struct Many40x38 {}
        struct Many40x39 {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x0 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x1 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x2 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x3 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x3 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x4 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x4 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x5 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x5 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x6 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x6 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x7 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x7 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x8 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x8 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x9 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x9 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x10 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x10 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x11 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x11 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x12 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x12 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x13 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x14 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x14 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x15 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x15 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x16 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x16 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x17 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x17 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x18 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x18 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x19 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x19 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x20 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x20 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x21 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x21 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x22 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x22 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x23 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x23 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x24 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x24 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x25 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x25 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x26 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x27 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x27 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x28 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x28 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x29 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x29 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x30 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x30 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x31 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x31 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x32 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x32 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x33 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x33 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x34 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x34 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x35 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x35 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x36 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x36 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x37 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x37 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x38 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x38 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call203::Many40x39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call203::Many40x39 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call204 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        struct Many100x0 {}
        struct Many100x1 {}
        struct Many100x2 {}
        struct Many100x3 {}
        struct Many100x4 {}
        struct Many100x5 {}
        struct Many100x6 {}
        struct Many100x7 {}
        struct Many100x8 {}
        struct Many100x9 {}
        struct Many100x10 {}
        struct Many100x11 {}
        struct Many100x12 {}
        struct Many100x13 {}
        struct Many100x14 {}
        struct Many100x15 {}
        struct Many100x16 {}
        struct Many100x17 {}
        struct Many100x18 {}
        struct Many100x19 {}
        struct Many100x20 {}
        struct Many100x21 {}
        struct Many100x22 {}
        struct Many100x23 {}
        struct Many100x24 {}
        struct Many100x25 {}
        struct Many100x26 {}
        struct Many100x27 {}
        struct Many100x28 {}
        struct Many100x29 {}
        struct Many100x30 {}
        struct Many100x31 {}
        struct Many100x32 {}
        struct Many100x33 {}
        struct Many100x34 {}
        struct Many100x35 {}
        struct Many100x36 {}
        struct Many100x37 {}
        struct Many100x38 {}
        struct Many100x39 {}
        struct Many100x40 {}
        struct Many100x41 {}
        struct Many100x42 {}
        struct Many100x43 {}
        struct Many100x44 {}
        struct Many100x45 {}
        struct Many100x46 {}
        struct Many100x47 {}
        struct Many100x48 {}
        struct Many100x49 {}
        struct Many100x50 {}
        struct Many100x51 {}
        struct Many100x52 {}
        struct Many100x53 {}
        struct Many100x54 {}
        struct Many100x55 {}
        struct Many100x56 {}
        struct Many100x57 {}
        struct Many100x58 {}
        struct Many100x59 {}
        struct Many100x60 {}
        struct Many100x61 {}
        struct Many100x62 {}
        struct Many100x63 {}
        struct Many100x64 {}
        struct Many100x65 {}
        struct Many100x66 {}
        struct Many100x67 {}
        struct Many100x68 {}
        struct Many100x69 {}
        struct Many100x70 {}
        struct Many100x71 {}
        struct Many100x72 {}
        struct Many100x73 {}
        struct Many100x74 {}
        struct Many100x75 {}
        struct Many100x76 {}
        struct Many100x77 {}
        struct Many100x78 {}
        struct Many100x79 {}
        struct Many100x80 {}
        struct Many100x81 {}
        struct Many100x82 {}
        struct Many100x83 {}
        struct Many100x84 {}
        struct Many100x85 {}
        struct Many100x86 {}
        struct Many100x87 {}
        struct Many100x88 {}
        struct Many100x89 {}
        struct Many100x90 {}
        struct Many100x91 {}
        struct Many100x92 {}
        struct Many100x93 {}
        struct Many100x94 {}
        struct Many100x95 {}
        struct Many100x96 {}
        struct Many100x97 {}
        struct Many100x98 {}
        struct Many100x99 {}
    }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x0 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x0 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x1 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x1 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x2 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x2 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x3 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x3 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x4 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x4 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x5 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x5 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x6 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x6 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x7 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x7 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x8 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x8 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x9 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x9 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x10 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x10 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x11 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x11 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x12 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x12 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x13 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x13 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x14 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x14 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x15 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x15 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x16 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x16 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x17 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x17 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x18 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x18 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x19 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x19 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x20 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x20 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x21 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x21 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x22 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x22 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x23 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x23 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x24 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x24 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x25 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x25 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x26 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x26 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x27 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x27 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x28 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x28 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x29 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x29 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x30 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x30 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x31 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x31 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x32 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x32 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x33 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x33 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x34 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x34 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x35 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x35 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x36 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x36 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x37 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x37 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x38 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x38 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x39 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x39 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x40 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x40 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x41 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x41 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x42 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x42 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x43 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x43 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x44 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x44 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x45 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x45 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x46 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x46 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x47 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x47 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x48 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x48 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x49 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x49 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x50 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x50 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x51 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x51 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x52 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x52 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x53 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x53 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x54 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x54 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x55 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x55 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x56 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x56 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x57 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x57 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x58 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x58 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x59 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x59 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x60 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x60 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x61 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x61 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x62 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x62 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x63 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x63 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x64 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x64 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x65 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x65 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x66 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x66 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x67 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x67 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x68 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x68 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x69 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x69 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x70 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x70 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x71 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x71 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x72 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x72 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x73 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x73 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x74 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x74 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x75 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x75 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x76 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x76 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x77 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x77 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x78 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x78 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x79 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x79 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x80 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x80 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x81 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x81 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x82 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x82 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x83 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x83 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x84 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x84 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x85 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x85 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x86 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x86 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x87 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x87 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x88 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x88 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x89 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x89 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x90 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x90 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x91 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x91 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x92 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x92 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x93 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x93 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x94 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x94 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x95 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x95 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x96 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x96 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x97 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x97 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x98 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x98 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
#[allow(clippy::needless_update)]
impl Subject for call204::Many100x99 {
  fn from_m(m: &M) -> Self {
    let M::Struct(f) = m else { return cannot(m) };
    let _ = f;
    call204::Many100x99 {  ..Default::default() }
  }
  fn to_m(&self) -> M { M::Struct(vec![]) }
}
pub mod call205 {
    #[allow(unused_imports)]
    use super::call0::{Fork, Leaf, Tone};
    compact_thrift_runtime::thrift! {
        
    }
}
pub const IDL: &str = r##"
enum Tone { LOW = 0; HIGH = 9; }
struct Leaf { 1: required i32 a; 2: optional bool b; }
union Fork { 1: i32 left; 2: string right; }

struct Field0 {
    1: required i32 f0;
    2: required i32 f1
    3: required i32 f2 = 7;
    4: required i32 f3 = 7
    5: required i32 f4 = -3;
    6: required i32 f5 = -3
    7: required i32 f6 = 2.5;
    8: required i32 f7 = 2.5
    9: required i32 f8 = "text";
    10: required i32 f9 = "text"
    11: required i32 f10 = true;
    12: required i32 f11 = true
    13: optional i32 f12;
    14: optional i32 f13
    15: optional i32 f14 = 7;
    16: optional i32 f15 = 7
    17: optional i32 f16 = -3;
    18: optional i32 f17 = -3
    19: optional i32 f18 = 2.5;
    20: optional i32 f19 = 2.5
    21: optional i32 f20 = "text";
    22: optional i32 f21 = "text"
    23: optional i32 f22 = true;
    24: optional i32 f23 = true
}
struct Field1 {
    /// one line
    1: required i32 f0;
    /// one line
    2: required i32 f1
    /// one line
    3: required i32 f2 = 7;
    /// one line
    4: required i32 f3 = 7
    /// one line
    5: required i32 f4 = -3;
    /// one line
    6: required i32 f5 = -3
    /// one line
    7: required i32 f6 = 2.5;
    /// one line
    8: required i32 f7 = 2.5
    /// one line
    9: required i32 f8 = "text";
    /// one line
    10: required i32 f9 = "text"
    /// one line
    11: required i32 f10 = true;
    /// one line
    12: required i32 f11 = true
    /// one line
    13: optional i32 f12;
    /// one line
    14: optional i32 f13
    /// one line
    15: optional i32 f14 = 7;
    /// one line
    16: optional i32 f15 = 7
    /// one line
    17: optional i32 f16 = -3;
    /// one line
    18: optional i32 f17 = -3
    /// one line
    19: optional i32 f18 = 2.5;
    /// one line
    20: optional i32 f19 = 2.5
    /// one line
    21: optional i32 f20 = "text";
    /// one line
    22: optional i32 f21 = "text"
    /// one line
    23: optional i32 f22 = true;
    /// one line
    24: optional i32 f23 = true
}
struct Field2 {
    /** block
       of two lines */
    1: required i32 f0;
    /** block
       of two lines */
    2: required i32 f1
    /** block
       of two lines */
    3: required i32 f2 = 7;
    /** block
       of two lines */
    4: required i32 f3 = 7
    /** block
       of two lines */
    5: required i32 f4 = -3;
    /** block
       of two lines */
    6: required i32 f5 = -3
    /** block
       of two lines */
    7: required i32 f6 = 2.5;
    /** block
       of two lines */
    8: required i32 f7 = 2.5
    /** block
       of two lines */
    9: required i32 f8 = "text";
    /** block
       of two lines */
    10: required i32 f9 = "text"
    /** block
       of two lines */
    11: required i32 f10 = true;
    /** block
       of two lines */
    12: required i32 f11 = true
    /** block
       of two lines */
    13: optional i32 f12;
    /** block
       of two lines */
    14: optional i32 f13
    /** block
       of two lines */
    15: optional i32 f14 = 7;
    /** block
       of two lines */
    16: optional i32 f15 = 7
    /** block
       of two lines */
    17: optional i32 f16 = -3;
    /** block
       of two lines */
    18: optional i32 f17 = -3
    /** block
       of two lines */
    19: optional i32 f18 = 2.5;
    /** block
       of two lines */
    20: optional i32 f19 = 2.5
    /** block
       of two lines */
    21: optional i32 f20 = "text";
    /** block
       of two lines */
    22: optional i32 f21 = "text"
    /** block
       of two lines */
    23: optional i32 f22 = true;
    /** block
       of two lines */
    24: optional i32 f23 = true
}
struct Field3 {
    // plain
    1: required i32 f0;
    // plain
    2: required i32 f1
    // plain
    3: required i32 f2 = 7;
    // plain
    4: required i32 f3 = 7
    // plain
    5: required i32 f4 = -3;
    // plain
    6: required i32 f5 = -3
    // plain
    7: required i32 f6 = 2.5;
    // plain
    8: required i32 f7 = 2.5
    // plain
    9: required i32 f8 = "text";
    // plain
    10: required i32 f9 = "text"
    // plain
    11: required i32 f10 = true;
    // plain
    12: required i32 f11 = true
    // plain
    13: optional i32 f12;
    // plain
    14: optional i32 f13
    // plain
    15: optional i32 f14 = 7;
    // plain
    16: optional i32 f15 = 7
    // plain
    17: optional i32 f16 = -3;
    // plain
    18: optional i32 f17 = -3
    // plain
    19: optional i32 f18 = 2.5;
    // plain
    20: optional i32 f19 = 2.5
    // plain
    21: optional i32 f20 = "text";
    // plain
    22: optional i32 f21 = "text"
    // plain
    23: optional i32 f22 = true;
    // plain
    24: optional i32 f23 = true
}
struct Field4 {
    /* plain block */
    1: required i32 f0;
    /* plain block */
    2: required i32 f1
    /* plain block */
    3: required i32 f2 = 7;
    /* plain block */
    4: required i32 f3 = 7
    /* plain block */
    5: required i32 f4 = -3;
    /* plain block */
    6: required i32 f5 = -3
    /* plain block */
    7: required i32 f6 = 2.5;
    /* plain block */
    8: required i32 f7 = 2.5
    /* plain block */
    9: required i32 f8 = "text";
    /* plain block */
    10: required i32 f9 = "text"
    /* plain block */
    11: required i32 f10 = true;
    /* plain block */
    12: required i32 f11 = true
    /* plain block */
    13: optional i32 f12;
    /* plain block */
    14: optional i32 f13
    /* plain block */
    15: optional i32 f14 = 7;
    /* plain block */
    16: optional i32 f15 = 7
    /* plain block */
    17: optional i32 f16 = -3;
    /* plain block */
    18: optional i32 f17 = -3
    /* plain block */
    19: optional i32 f18 = 2.5;
    /* plain block */
    20: optional i32 f19 = 2.5
    /* plain block */
    21: optional i32 f20 = "text";
    /* plain block */
    22: optional i32 f21 = "text"
    /* plain block */
    23: optional i32 f22 = true;
    /* plain block */
    24: optional i32 f23 = true
}
struct Field5 {
    /// first
    /// second
    /** third */
    1: required i32 f0;
    /// first
    /// second
    /** third */
    2: required i32 f1
    /// first
    /// second
    /** third */
    3: required i32 f2 = 7;
    /// first
    /// second
    /** third */
    4: required i32 f3 = 7
    /// first
    /// second
    /** third */
    5: required i32 f4 = -3;
    /// first
    /// second
    /** third */
    6: required i32 f5 = -3
    /// first
    /// second
    /** third */
    7: required i32 f6 = 2.5;
    /// first
    /// second
    /** third */
    8: required i32 f7 = 2.5
    /// first
    /// second
    /** third */
    9: required i32 f8 = "text";
    /// first
    /// second
    /** third */
    10: required i32 f9 = "text"
    /// first
    /// second
    /** third */
    11: required i32 f10 = true;
    /// first
    /// second
    /** third */
    12: required i32 f11 = true
    /// first
    /// second
    /** third */
    13: optional i32 f12;
    /// first
    /// second
    /** third */
    14: optional i32 f13
    /// first
    /// second
    /** third */
    15: optional i32 f14 = 7;
    /// first
    /// second
    /** third */
    16: optional i32 f15 = 7
    /// first
    /// second
    /** third */
    17: optional i32 f16 = -3;
    /// first
    /// second
    /** third */
    18: optional i32 f17 = -3
    /// first
    /// second
    /** third */
    19: optional i32 f18 = 2.5;
    /// first
    /// second
    /** third */
    20: optional i32 f19 = 2.5
    /// first
    /// second
    /** third */
    21: optional i32 f20 = "text";
    /// first
    /// second
    /** third */
    22: optional i32 f21 = "text"
    /// first
    /// second
    /** third */
    23: optional i32 f22 = true;
    /// first
    /// second
    /** third */
    24: optional i32 f23 = true
}
struct Field6 {
    1: required list<string> f0;
    2: required list<string> f1
    3: required list<string> f2 = 7;
    4: required list<string> f3 = 7
    5: required list<string> f4 = -3;
    6: required list<string> f5 = -3
    7: required list<string> f6 = 2.5;
    8: required list<string> f7 = 2.5
    9: required list<string> f8 = "text";
    10: required list<string> f9 = "text"
    11: required list<string> f10 = true;
    12: required list<string> f11 = true
    13: optional list<string> f12;
    14: optional list<string> f13
    15: optional list<string> f14 = 7;
    16: optional list<string> f15 = 7
    17: optional list<string> f16 = -3;
    18: optional list<string> f17 = -3
    19: optional list<string> f18 = 2.5;
    20: optional list<string> f19 = 2.5
    21: optional list<string> f20 = "text";
    22: optional list<string> f21 = "text"
    23: optional list<string> f22 = true;
    24: optional list<string> f23 = true
}
struct Field7 {
    /// one line
    1: required list<string> f0;
    /// one line
    2: required list<string> f1
    /// one line
    3: required list<string> f2 = 7;
    /// one line
    4: required list<string> f3 = 7
    /// one line
    5: required list<string> f4 = -3;
    /// one line
    6: required list<string> f5 = -3
    /// one line
    7: required list<string> f6 = 2.5;
    /// one line
    8: required list<string> f7 = 2.5
    /// one line
    9: required list<string> f8 = "text";
    /// one line
    10: required list<string> f9 = "text"
    /// one line
    11: required list<string> f10 = true;
    /// one line
    12: required list<string> f11 = true
    /// one line
    13: optional list<string> f12;
    /// one line
    14: optional list<string> f13
    /// one line
    15: optional list<string> f14 = 7;
    /// one line
    16: optional list<string> f15 = 7
    /// one line
    17: optional list<string> f16 = -3;
    /// one line
    18: optional list<string> f17 = -3
    /// one line
    19: optional list<string> f18 = 2.5;
    /// one line
    20: optional list<string> f19 = 2.5
    /// one line
    21: optional list<string> f20 = "text";
    /// one line
    22: optional list<string> f21 = "text"
    /// one line
    23: optional list<string> f22 = true;
    /// one line
    24: optional list<string> f23 = true
}
struct Field8 {
    /** block
       of two lines */
    1: required list<string> f0;
    /** block
       of two lines */
    2: required list<string> f1
    /** block
       of two lines */
    3: required list<string> f2 = 7;
    /** block
       of two lines */
    4: required list<string> f3 = 7
    /** block
       of two lines */
    5: required list<string> f4 = -3;
    /** block
       of two lines */
    6: required list<string> f5 = -3
    /** block
       of two lines */
    7: required list<string> f6 = 2.5;
    /** block
       of two lines */
    8: required list<string> f7 = 2.5
    /** block
       of two lines */
    9: required list<string> f8 = "text";
    /** block
       of two lines */
    10: required list<string> f9 = "text"
    /** block
       of two lines */
    11: required list<string> f10 = true;
    /** block
       of two lines */
    12: required list<string> f11 = true
    /** block
       of two lines */
    13: optional list<string> f12;
    /** block
       of two lines */
    14: optional list<string> f13
    /** block
       of two lines */
    15: optional list<string> f14 = 7;
    /** block
       of two lines */
    16: optional list<string> f15 = 7
    /** block
       of two lines */
    17: optional list<string> f16 = -3;
    /** block
       of two lines */
    18: optional list<string> f17 = -3
    /** block
       of two lines */
    19: optional list<string> f18 = 2.5;
    /** block
       of two lines */
    20: optional list<string> f19 = 2.5
    /** block
       of two lines */
    21: optional list<string> f20 = "text";
    /** block
       of two lines */
    22: optional list<string> f21 = "text"
    /** block
       of two lines */
    23: optional list<string> f22 = true;
    /** block
       of two lines */
    24: optional list<string> f23 = true
}
struct Field9 {
    // plain
    1: required list<string> f0;
    // plain
    2: required list<string> f1
    // plain
    3: required list<string> f2 = 7;
    // plain
    4: required list<string> f3 = 7
    // plain
    5: required list<string> f4 = -3;
    // plain
    6: required list<string> f5 = -3
    // plain
    7: required list<string> f6 = 2.5;
    // plain
    8: required list<string> f7 = 2.5
    // plain
    9: required list<string> f8 = "text";
    // plain
    10: required list<string> f9 = "text"
    // plain
    11: required list<string> f10 = true;
    // plain
    12: required list<string> f11 = true
    // plain
    13: optional list<string> f12;
    // plain
    14: optional list<string> f13
    // plain
    15: optional list<string> f14 = 7;
    // plain
    16: optional list<string> f15 = 7
    // plain
    17: optional list<string> f16 = -3;
    // plain
    18: optional list<string> f17 = -3
    // plain
    19: optional list<string> f18 = 2.5;
    // plain
    20: optional list<string> f19 = 2.5
    // plain
    21: optional list<string> f20 = "text";
    // plain
    22: optional list<string> f21 = "text"
    // plain
    23: optional list<string> f22 = true;
    // plain
    24: optional list<string> f23 = true
}
struct Field10 {
    /* plain block */
    1: required list<string> f0;
    /* plain block */
    2: required list<string> f1
    /* plain block */
    3: required list<string> f2 = 7;
    /* plain block */
    4: required list<string> f3 = 7
    /* plain block */
    5: required list<string> f4 = -3;
    /* plain block */
    6: required list<string> f5 = -3
    /* plain block */
    7: required list<string> f6 = 2.5;
    /* plain block */
    8: required list<string> f7 = 2.5
    /* plain block */
    9: required list<string> f8 = "text";
    /* plain block */
    10: required list<string> f9 = "text"
    /* plain block */
    11: required list<string> f10 = true;
    /* plain block */
    12: required list<string> f11 = true
    /* plain block */
    13: optional list<string> f12;
    /* plain block */
    14: optional list<string> f13
    /* plain block */
    15: optional list<string> f14 = 7;
    /* plain block */
    16: optional list<string> f15 = 7
    /* plain block */
    17: optional list<string> f16 = -3;
    /* plain block */
    18: optional list<string> f17 = -3
    /* plain block */
    19: optional list<string> f18 = 2.5;
    /* plain block */
    20: optional list<string> f19 = 2.5
    /* plain block */
    21: optional list<string> f20 = "text";
    /* plain block */
    22: optional list<string> f21 = "text"
    /* plain block */
    23: optional list<string> f22 = true;
    /* plain block */
    24: optional list<string> f23 = true
}
struct Field11 {
    /// first
    /// second
    /** third */
    1: required list<string> f0;
    /// first
    /// second
    /** third */
    2: required list<string> f1
    /// first
    /// second
    /** third */
    3: required list<string> f2 = 7;
    /// first
    /// second
    /** third */
    4: required list<string> f3 = 7
    /// first
    /// second
    /** third */
    5: required list<string> f4 = -3;
    /// first
    /// second
    /** third */
    6: required list<string> f5 = -3
    /// first
    /// second
    /** third */
    7: required list<string> f6 = 2.5;
    /// first
    /// second
    /** third */
    8: required list<string> f7 = 2.5
    /// first
    /// second
    /** third */
    9: required list<string> f8 = "text";
    /// first
    /// second
    /** third */
    10: required list<string> f9 = "text"
    /// first
    /// second
    /** third */
    11: required list<string> f10 = true;
    /// first
    /// second
    /** third */
    12: required list<string> f11 = true
    /// first
    /// second
    /** third */
    13: optional list<string> f12;
    /// first
    /// second
    /** third */
    14: optional list<string> f13
    /// first
    /// second
    /** third */
    15: optional list<string> f14 = 7;
    /// first
    /// second
    /** third */
    16: optional list<string> f15 = 7
    /// first
    /// second
    /** third */
    17: optional list<string> f16 = -3;
    /// first
    /// second
    /** third */
    18: optional list<string> f17 = -3
    /// first
    /// second
    /** third */
    19: optional list<string> f18 = 2.5;
    /// first
    /// second
    /** third */
    20: optional list<string> f19 = 2.5
    /// first
    /// second
    /** third */
    21: optional list<string> f20 = "text";
    /// first
    /// second
    /** third */
    22: optional list<string> f21 = "text"
    /// first
    /// second
    /** third */
    23: optional list<string> f22 = true;
    /// first
    /// second
    /** third */
    24: optional list<string> f23 = true
}
struct Field12 {
    1: required Box<Leaf> f0;
    2: required Box<Leaf> f1
    3: required Box<Leaf> f2 = 7;
    4: required Box<Leaf> f3 = 7
    5: required Box<Leaf> f4 = -3;
    6: required Box<Leaf> f5 = -3
    7: required Box<Leaf> f6 = 2.5;
    8: required Box<Leaf> f7 = 2.5
    9: required Box<Leaf> f8 = "text";
    10: required Box<Leaf> f9 = "text"
    11: required Box<Leaf> f10 = true;
    12: required Box<Leaf> f11 = true
    13: optional Box<Leaf> f12;
    14: optional Box<Leaf> f13
    15: optional Box<Leaf> f14 = 7;
    16: optional Box<Leaf> f15 = 7
    17: optional Box<Leaf> f16 = -3;
    18: optional Box<Leaf> f17 = -3
    19: optional Box<Leaf> f18 = 2.5;
    20: optional Box<Leaf> f19 = 2.5
    21: optional Box<Leaf> f20 = "text";
    22: optional Box<Leaf> f21 = "text"
    23: optional Box<Leaf> f22 = true;
    24: optional Box<Leaf> f23 = true
}
struct Field13 {
    /// one line
    1: required Box<Leaf> f0;
    /// one line
    2: required Box<Leaf> f1
    /// one line
    3: required Box<Leaf> f2 = 7;
    /// one line
    4: required Box<Leaf> f3 = 7
    /// one line
    5: required Box<Leaf> f4 = -3;
    /// one line
    6: required Box<Leaf> f5 = -3
    /// one line
    7: required Box<Leaf> f6 = 2.5;
    /// one line
    8: required Box<Leaf> f7 = 2.5
    /// one line
    9: required Box<Leaf> f8 = "text";
    /// one line
    10: required Box<Leaf> f9 = "text"
    /// one line
    11: required Box<Leaf> f10 = true;
    /// one line
    12: required Box<Leaf> f11 = true
    /// one line
    13: optional Box<Leaf> f12;
    /// one line
    14: optional Box<Leaf> f13
    /// one line
    15: optional Box<Leaf> f14 = 7;
    /// one line
    16: optional Box<Leaf> f15 = 7
    /// one line
    17: optional Box<Leaf> f16 = -3;
    /// one line
    18: optional Box<Leaf> f17 = -3
    /// one line
    19: optional Box<Leaf> f18 = 2.5;
    /// one line
    20: optional Box<Leaf> f19 = 2.5
    /// one line
    21: optional Box<Leaf> f20 = "text";
    /// one line
    22: optional Box<Leaf> f21 = "text"
    /// one line
    23: optional Box<Leaf> f22 = true;
    /// one line
    24: optional Box<Leaf> f23 = true
}
struct Field14 {
    /** block
       of two lines */
    1: required Box<Leaf> f0;
    /** block
       of two lines */
    2: required Box<Leaf> f1
    /** block
       of two lines */
    3: required Box<Leaf> f2 = 7;
    /** block
       of two lines */
    4: required Box<Leaf> f3 = 7
    /** block
       of two lines */
    5: required Box<Leaf> f4 = -3;
    /** block
       of two lines */
    6: required Box<Leaf> f5 = -3
    /** block
       of two lines */
    7: required Box<Leaf> f6 = 2.5;
    /** block
       of two lines */
    8: required Box<Leaf> f7 = 2.5
    /** block
       of two lines */
    9: required Box<Leaf> f8 = "text";
    /** block
       of two lines */
    10: required Box<Leaf> f9 = "text"
    /** block
       of two lines */
    11: required Box<Leaf> f10 = true;
    /** block
       of two lines */
    12: required Box<Leaf> f11 = true
    /** block
       of two lines */
    13: optional Box<Leaf> f12;
    /** block
       of two lines */
    14: optional Box<Leaf> f13
    /** block
       of two lines */
    15: optional Box<Leaf> f14 = 7;
    /** block
       of two lines */
    16: optional Box<Leaf> f15 = 7
    /** block
       of two lines */
    17: optional Box<Leaf> f16 = -3;
    /** block
       of two lines */
    18: optional Box<Leaf> f17 = -3
    /** block
       of two lines */
    19: optional Box<Leaf> f18 = 2.5;
    /** block
       of two lines */
    20: optional Box<Leaf> f19 = 2.5
    /** block
       of two lines */
    21: optional Box<Leaf> f20 = "text";
    /** block
       of two lines */
    22: optional Box<Leaf> f21 = "text"
    /** block
       of two lines */
    23: optional Box<Leaf> f22 = true;
    /** block
       of two lines */
    24: optional Box<Leaf> f23 = true
}
struct Field15 {
    // plain
    1: required Box<Leaf> f0;
    // plain
    2: required Box<Leaf> f1
    // plain
    3: required Box<Leaf> f2 = 7;
    // plain
    4: required Box<Leaf> f3 = 7
    // plain
    5: required Box<Leaf> f4 = -3;
    // plain
    6: required Box<Leaf> f5 = -3
    // plain
    7: required Box<Leaf> f6 = 2.5;
    // plain
    8: required Box<Leaf> f7 = 2.5
    // plain
    9: required Box<Leaf> f8 = "text";
    // plain
    10: required Box<Leaf> f9 = "text"
    // plain
    11: required Box<Leaf> f10 = true;
    // plain
    12: required Box<Leaf> f11 = true
    // plain
    13: optional Box<Leaf> f12;
    // plain
    14: optional Box<Leaf> f13
    // plain
    15: optional Box<Leaf> f14 = 7;
    // plain
    16: optional Box<Leaf> f15 = 7
    // plain
    17: optional Box<Leaf> f16 = -3;
    // plain
    18: optional Box<Leaf> f17 = -3
    // plain
    19: optional Box<Leaf> f18 = 2.5;
    // plain
    20: optional Box<Leaf> f19 = 2.5
    // plain
    21: optional Box<Leaf> f20 = "text";
    // plain
    22: optional Box<Leaf> f21 = "text"
    // plain
    23: optional Box<Leaf> f22 = true;
    // plain
    24: optional Box<Leaf> f23 = true
}
struct Field16 {
    /* plain block */
    1: required Box<Leaf> f0;
    /* plain block */
    2: required Box<Leaf> f1
    /* plain block */
    3: required Box<Leaf> f2 = 7;
    /* plain block */
    4: required Box<Leaf> f3 = 7
    /* plain block */
    5: required Box<Leaf> f4 = -3;
    /* plain block */
    6: required Box<Leaf> f5 = -3
    /* plain block */
    7: required Box<Leaf> f6 = 2.5;
    /* plain block */
    8: required Box<Leaf> f7 = 2.5
    /* plain block */
    9: required Box<Leaf> f8 = "text";
    /* plain block */
    10: required Box<Leaf> f9 = "text"
    /* plain block */
    11: required Box<Leaf> f10 = true;
    /* plain block */
    12: required Box<Leaf> f11 = true
    /* plain block */
    13: optional Box<Leaf> f12;
    /* plain block */
    14: optional Box<Leaf> f13
    /* plain block */
    15: optional Box<Leaf> f14 = 7;
    /* plain block */
    16: optional Box<Leaf> f15 = 7
    /* plain block */
    17: optional Box<Leaf> f16 = -3;
    /* plain block */
    18: optional Box<Leaf> f17 = -3
    /* plain block */
    19: optional Box<Leaf> f18 = 2.5;
    /* plain block */
    20: optional Box<Leaf> f19 = 2.5
    /* plain block */
    21: optional Box<Leaf> f20 = "text";
    /* plain block */
    22: optional Box<Leaf> f21 = "text"
    /* plain block */
    23: optional Box<Leaf> f22 = true;
    /* plain block */
    24: optional Box<Leaf> f23 = true
}
struct Field17 {
    /// first
    /// second
    /** third */
    1: required Box<Leaf> f0;
    /// first
    /// second
    /** third */
    2: required Box<Leaf> f1
    /// first
    /// second
    /** third */
    3: required Box<Leaf> f2 = 7;
    /// first
    /// second
    /** third */
    4: required Box<Leaf> f3 = 7
    /// first
    /// second
    /** third */
    5: required Box<Leaf> f4 = -3;
    /// first
    /// second
    /** third */
    6: required Box<Leaf> f5 = -3
    /// first
    /// second
    /** third */
    7: required Box<Leaf> f6 = 2.5;
    /// first
    /// second
    /** third */
    8: required Box<Leaf> f7 = 2.5
    /// first
    /// second
    /** third */
    9: required Box<Leaf> f8 = "text";
    /// first
    /// second
    /** third */
    10: required Box<Leaf> f9 = "text"
    /// first
    /// second
    /** third */
    11: required Box<Leaf> f10 = true;
    /// first
    /// second
    /** third */
    12: required Box<Leaf> f11 = true
    /// first
    /// second
    /** third */
    13: optional Box<Leaf> f12;
    /// first
    /// second
    /** third */
    14: optional Box<Leaf> f13
    /// first
    /// second
    /** third */
    15: optional Box<Leaf> f14 = 7;
    /// first
    /// second
    /** third */
    16: optional Box<Leaf> f15 = 7
    /// first
    /// second
    /** third */
    17: optional Box<Leaf> f16 = -3;
    /// first
    /// second
    /** third */
    18: optional Box<Leaf> f17 = -3
    /// first
    /// second
    /** third */
    19: optional Box<Leaf> f18 = 2.5;
    /// first
    /// second
    /** third */
    20: optional Box<Leaf> f19 = 2.5
    /// first
    /// second
    /** third */
    21: optional Box<Leaf> f20 = "text";
    /// first
    /// second
    /** third */
    22: optional Box<Leaf> f21 = "text"
    /// first
    /// second
    /** third */
    23: optional Box<Leaf> f22 = true;
    /// first
    /// second
    /** third */
    24: optional Box<Leaf> f23 = true
}
struct Field18 {
    1: required bool f0;
    2: required bool f1
    3: required bool f2 = 7;
    4: required bool f3 = 7
    5: optional bool f4;
    6: optional bool f5
    7: optional bool f6 = 7;
    8: optional bool f7 = 7
    /// one line
    9: required bool f8;
    /// one line
    10: required bool f9
    /// one line
    11: required bool f10 = 7;
    /// one line
    12: required bool f11 = 7
    /// one line
    13: optional bool f12;
    /// one line
    14: optional bool f13
    /// one line
    15: optional bool f14 = 7;
    /// one line
    16: optional bool f15 = 7
    17: required byte f16;
    18: required byte f17
    19: required byte f18 = 7;
    20: required byte f19 = 7
    21: optional byte f20;
    22: optional byte f21
    23: optional byte f22 = 7;
    24: optional byte f23 = 7
}
struct Field19 {
    /// one line
    1: required byte f0;
    /// one line
    2: required byte f1
    /// one line
    3: required byte f2 = 7;
    /// one line
    4: required byte f3 = 7
    /// one line
    5: optional byte f4;
    /// one line
    6: optional byte f5
    /// one line
    7: optional byte f6 = 7;
    /// one line
    8: optional byte f7 = 7
    9: required i8 f8;
    10: required i8 f9
    11: required i8 f10 = 7;
    12: required i8 f11 = 7
    13: optional i8 f12;
    14: optional i8 f13
    15: optional i8 f14 = 7;
    16: optional i8 f15 = 7
    /// one line
    17: required i8 f16;
    /// one line
    18: required i8 f17
    /// one line
    19: required i8 f18 = 7;
    /// one line
    20: required i8 f19 = 7
    /// one line
    21: optional i8 f20;
    /// one line
    22: optional i8 f21
    /// one line
    23: optional i8 f22 = 7;
    /// one line
    24: optional i8 f23 = 7
}
struct Field20 {
    1: required i16 f0;
    2: required i16 f1
    3: required i16 f2 = 7;
    4: required i16 f3 = 7
    5: optional i16 f4;
    6: optional i16 f5
    7: optional i16 f6 = 7;
    8: optional i16 f7 = 7
    /// one line
    9: required i16 f8;
    /// one line
    10: required i16 f9
    /// one line
    11: required i16 f10 = 7;
    /// one line
    12: required i16 f11 = 7
    /// one line
    13: optional i16 f12;
    /// one line
    14: optional i16 f13
    /// one line
    15: optional i16 f14 = 7;
    /// one line
    16: optional i16 f15 = 7
    17: required i32 f16;
    18: required i32 f17
    19: required i32 f18 = 7;
    20: required i32 f19 = 7
    21: optional i32 f20;
    22: optional i32 f21
    23: optional i32 f22 = 7;
    24: optional i32 f23 = 7
}
struct Field21 {
    /// one line
    1: required i32 f0;
    /// one line
    2: required i32 f1
    /// one line
    3: required i32 f2 = 7;
    /// one line
    4: required i32 f3 = 7
    /// one line
    5: optional i32 f4;
    /// one line
    6: optional i32 f5
    /// one line
    7: optional i32 f6 = 7;
    /// one line
    8: optional i32 f7 = 7
    9: required i64 f8;
    10: required i64 f9
    11: required i64 f10 = 7;
    12: required i64 f11 = 7
    13: optional i64 f12;
    14: optional i64 f13
    15: optional i64 f14 = 7;
    16: optional i64 f15 = 7
    /// one line
    17: required i64 f16;
    /// one line
    18: required i64 f17
    /// one line
    19: required i64 f18 = 7;
    /// one line
    20: required i64 f19 = 7
    /// one line
    21: optional i64 f20;
    /// one line
    22: optional i64 f21
    /// one line
    23: optional i64 f22 = 7;
    /// one line
    24: optional i64 f23 = 7
}
struct Field22 {
    1: required double f0;
    2: required double f1
    3: required double f2 = 7;
    4: required double f3 = 7
    5: optional double f4;
    6: optional double f5
    7: optional double f6 = 7;
    8: optional double f7 = 7
    /// one line
    9: required double f8;
    /// one line
    10: required double f9
    /// one line
    11: required double f10 = 7;
    /// one line
    12: required double f11 = 7
    /// one line
    13: optional double f12;
    /// one line
    14: optional double f13
    /// one line
    15: optional double f14 = 7;
    /// one line
    16: optional double f15 = 7
    17: required string f16;
    18: required string f17
    19: required string f18 = 7;
    20: required string f19 = 7
    21: optional string f20;
    22: optional string f21
    23: optional string f22 = 7;
    24: optional string f23 = 7
}
struct Field23 {
    /// one line
    1: required string f0;
    /// one line
    2: required string f1
    /// one line
    3: required string f2 = 7;
    /// one line
    4: required string f3 = 7
    /// one line
    5: optional string f4;
    /// one line
    6: optional string f5
    /// one line
    7: optional string f6 = 7;
    /// one line
    8: optional string f7 = 7
    9: required String f8;
    10: required String f9
    11: required String f10 = 7;
    12: required String f11 = 7
    13: optional String f12;
    14: optional String f13
    15: optional String f14 = 7;
    16: optional String f15 = 7
    /// one line
    17: required String f16;
    /// one line
    18: required String f17
    /// one line
    19: required String f18 = 7;
    /// one line
    20: required String f19 = 7
    /// one line
    21: optional String f20;
    /// one line
    22: optional String f21
    /// one line
    23: optional String f22 = 7;
    /// one line
    24: optional String f23 = 7
}
struct Field24 {
    1: required binary f0;
    2: required binary f1
    3: required binary f2 = 7;
    4: required binary f3 = 7
    5: optional binary f4;
    6: optional binary f5
    7: optional binary f6 = 7;
    8: optional binary f7 = 7
    /// one line
    9: required binary f8;
    /// one line
    10: required binary f9
    /// one line
    11: required binary f10 = 7;
    /// one line
    12: required binary f11 = 7
    /// one line
    13: optional binary f12;
    /// one line
    14: optional binary f13
    /// one line
    15: optional binary f14 = 7;
    /// one line
    16: optional binary f15 = 7
    17: required Leaf f16;
    18: required Leaf f17
    19: required Leaf f18 = 7;
    20: required Leaf f19 = 7
    21: optional Leaf f20;
    22: optional Leaf f21
    23: optional Leaf f22 = 7;
    24: optional Leaf f23 = 7
}
struct Field25 {
    /// one line
    1: required Leaf f0;
    /// one line
    2: required Leaf f1
    /// one line
    3: required Leaf f2 = 7;
    /// one line
    4: required Leaf f3 = 7
    /// one line
    5: optional Leaf f4;
    /// one line
    6: optional Leaf f5
    /// one line
    7: optional Leaf f6 = 7;
    /// one line
    8: optional Leaf f7 = 7
    9: required Fork f8;
    10: required Fork f9
    11: required Fork f10 = 7;
    12: required Fork f11 = 7
    13: optional Fork f12;
    14: optional Fork f13
    15: optional Fork f14 = 7;
    16: optional Fork f15 = 7
    /// one line
    17: required Fork f16;
    /// one line
    18: required Fork f17
    /// one line
    19: required Fork f18 = 7;
    /// one line
    20: required Fork f19 = 7
    /// one line
    21: optional Fork f20;
    /// one line
    22: optional Fork f21
    /// one line
    23: optional Fork f22 = 7;
    /// one line
    24: optional Fork f23 = 7
}
struct Field26 {
    1: required Tone f0;
    2: required Tone f1
    3: required Tone f2 = 7;
    4: required Tone f3 = 7
    5: optional Tone f4;
    6: optional Tone f5
    7: optional Tone f6 = 7;
    8: optional Tone f7 = 7
    /// one line
    9: required Tone f8;
    /// one line
    10: required Tone f9
    /// one line
    11: required Tone f10 = 7;
    /// one line
    12: required Tone f11 = 7
    /// one line
    13: optional Tone f12;
    /// one line
    14: optional Tone f13
    /// one line
    15: optional Tone f14 = 7;
    /// one line
    16: optional Tone f15 = 7
    17: required list<bool> f16;
    18: required list<bool> f17
    19: required list<bool> f18 = 7;
    20: required list<bool> f19 = 7
    21: optional list<bool> f20;
    22: optional list<bool> f21
    23: optional list<bool> f22 = 7;
    24: optional list<bool> f23 = 7
}
struct Field27 {
    /// one line
    1: required list<bool> f0;
    /// one line
    2: required list<bool> f1
    /// one line
    3: required list<bool> f2 = 7;
    /// one line
    4: required list<bool> f3 = 7
    /// one line
    5: optional list<bool> f4;
    /// one line
    6: optional list<bool> f5
    /// one line
    7: optional list<bool> f6 = 7;
    /// one line
    8: optional list<bool> f7 = 7
    9: required list<byte> f8;
    10: required list<byte> f9
    11: required list<byte> f10 = 7;
    12: required list<byte> f11 = 7
    13: optional list<byte> f12;
    14: optional list<byte> f13
    15: optional list<byte> f14 = 7;
    16: optional list<byte> f15 = 7
    /// one line
    17: required list<byte> f16;
    /// one line
    18: required list<byte> f17
    /// one line
    19: required list<byte> f18 = 7;
    /// one line
    20: required list<byte> f19 = 7
    /// one line
    21: optional list<byte> f20;
    /// one line
    22: optional list<byte> f21
    /// one line
    23: optional list<byte> f22 = 7;
    /// one line
    24: optional list<byte> f23 = 7
}
struct Field28 {
    1: required list<i8> f0;
    2: required list<i8> f1
    3: required list<i8> f2 = 7;
    4: required list<i8> f3 = 7
    5: optional list<i8> f4;
    6: optional list<i8> f5
    7: optional list<i8> f6 = 7;
    8: optional list<i8> f7 = 7
    /// one line
    9: required list<i8> f8;
    /// one line
    10: required list<i8> f9
    /// one line
    11: required list<i8> f10 = 7;
    /// one line
    12: required list<i8> f11 = 7
    /// one line
    13: optional list<i8> f12;
    /// one line
    14: optional list<i8> f13
    /// one line
    15: optional list<i8> f14 = 7;
    /// one line
    16: optional list<i8> f15 = 7
    17: required list<i16> f16;
    18: required list<i16> f17
    19: required list<i16> f18 = 7;
    20: required list<i16> f19 = 7
    21: optional list<i16> f20;
    22: optional list<i16> f21
    23: optional list<i16> f22 = 7;
    24: optional list<i16> f23 = 7
}
struct Field29 {
    /// one line
    1: required list<i16> f0;
    /// one line
    2: required list<i16> f1
    /// one line
    3: required list<i16> f2 = 7;
    /// one line
    4: required list<i16> f3 = 7
    /// one line
    5: optional list<i16> f4;
    /// one line
    6: optional list<i16> f5
    /// one line
    7: optional list<i16> f6 = 7;
    /// one line
    8: optional list<i16> f7 = 7
    9: required list<i32> f8;
    10: required list<i32> f9
    11: required list<i32> f10 = 7;
    12: required list<i32> f11 = 7
    13: optional list<i32> f12;
    14: optional list<i32> f13
    15: optional list<i32> f14 = 7;
    16: optional list<i32> f15 = 7
    /// one line
    17: required list<i32> f16;
    /// one line
    18: required list<i32> f17
    /// one line
    19: required list<i32> f18 = 7;
    /// one line
    20: required list<i32> f19 = 7
    /// one line
    21: optional list<i32> f20;
    /// one line
    22: optional list<i32> f21
    /// one line
    23: optional list<i32> f22 = 7;
    /// one line
    24: optional list<i32> f23 = 7
}
struct Field30 {
    1: required list<i64> f0;
    2: required list<i64> f1
    3: required list<i64> f2 = 7;
    4: required list<i64> f3 = 7
    5: optional list<i64> f4;
    6: optional list<i64> f5
    7: optional list<i64> f6 = 7;
    8: optional list<i64> f7 = 7
    /// one line
    9: required list<i64> f8;
    /// one line
    10: required list<i64> f9
    /// one line
    11: required list<i64> f10 = 7;
    /// one line
    12: required list<i64> f11 = 7
    /// one line
    13: optional list<i64> f12;
    /// one line
    14: optional list<i64> f13
    /// one line
    15: optional list<i64> f14 = 7;
    /// one line
    16: optional list<i64> f15 = 7
    17: required list<double> f16;
    18: required list<double> f17
    19: required list<double> f18 = 7;
    20: required list<double> f19 = 7
    21: optional list<double> f20;
    22: optional list<double> f21
    23: optional list<double> f22 = 7;
    24: optional list<double> f23 = 7
}
struct Field31 {
    /// one line
    1: required list<double> f0;
    /// one line
    2: required list<double> f1
    /// one line
    3: required list<double> f2 = 7;
    /// one line
    4: required list<double> f3 = 7
    /// one line
    5: optional list<double> f4;
    /// one line
    6: optional list<double> f5
    /// one line
    7: optional list<double> f6 = 7;
    /// one line
    8: optional list<double> f7 = 7
    9: required list<string> f8;
    10: required list<string> f9
    11: required list<string> f10 = 7;
    12: required list<string> f11 = 7
    13: optional list<string> f12;
    14: optional list<string> f13
    15: optional list<string> f14 = 7;
    16: optional list<string> f15 = 7
    /// one line
    17: required list<string> f16;
    /// one line
    18: required list<string> f17
    /// one line
    19: required list<string> f18 = 7;
    /// one line
    20: required list<string> f19 = 7
    /// one line
    21: optional list<string> f20;
    /// one line
    22: optional list<string> f21
    /// one line
    23: optional list<string> f22 = 7;
    /// one line
    24: optional list<string> f23 = 7
}
struct Field32 {
    1: required list<binary> f0;
    2: required list<binary> f1
    3: required list<binary> f2 = 7;
    4: required list<binary> f3 = 7
    5: optional list<binary> f4;
    6: optional list<binary> f5
    7: optional list<binary> f6 = 7;
    8: optional list<binary> f7 = 7
    /// one line
    9: required list<binary> f8;
    /// one line
    10: required list<binary> f9
    /// one line
    11: required list<binary> f10 = 7;
    /// one line
    12: required list<binary> f11 = 7
    /// one line
    13: optional list<binary> f12;
    /// one line
    14: optional list<binary> f13
    /// one line
    15: optional list<binary> f14 = 7;
    /// one line
    16: optional list<binary> f15 = 7
    17: required list<Leaf> f16;
    18: required list<Leaf> f17
    19: required list<Leaf> f18 = 7;
    20: required list<Leaf> f19 = 7
    21: optional list<Leaf> f20;
    22: optional list<Leaf> f21
    23: optional list<Leaf> f22 = 7;
    24: optional list<Leaf> f23 = 7
}
struct Field33 {
    /// one line
    1: required list<Leaf> f0;
    /// one line
    2: required list<Leaf> f1
    /// one line
    3: required list<Leaf> f2 = 7;
    /// one line
    4: required list<Leaf> f3 = 7
    /// one line
    5: optional list<Leaf> f4;
    /// one line
    6: optional list<Leaf> f5
    /// one line
    7: optional list<Leaf> f6 = 7;
    /// one line
    8: optional list<Leaf> f7 = 7
    9: required list<Fork> f8;
    10: required list<Fork> f9
    11: required list<Fork> f10 = 7;
    12: required list<Fork> f11 = 7
    13: optional list<Fork> f12;
    14: optional list<Fork> f13
    15: optional list<Fork> f14 = 7;
    16: optional list<Fork> f15 = 7
    /// one line
    17: required list<Fork> f16;
    /// one line
    18: required list<Fork> f17
    /// one line
    19: required list<Fork> f18 = 7;
    /// one line
    20: required list<Fork> f19 = 7
    /// one line
    21: optional list<Fork> f20;
    /// one line
    22: optional list<Fork> f21
    /// one line
    23: optional list<Fork> f22 = 7;
    /// one line
    24: optional list<Fork> f23 = 7
}
struct Field34 {
    1: required list<Tone> f0;
    2: required list<Tone> f1
    3: required list<Tone> f2 = 7;
    4: required list<Tone> f3 = 7
    5: optional list<Tone> f4;
    6: optional list<Tone> f5
    7: optional list<Tone> f6 = 7;
    8: optional list<Tone> f7 = 7
    /// one line
    9: required list<Tone> f8;
    /// one line
    10: required list<Tone> f9
    /// one line
    11: required list<Tone> f10 = 7;
    /// one line
    12: required list<Tone> f11 = 7
    /// one line
    13: optional list<Tone> f12;
    /// one line
    14: optional list<Tone> f13
    /// one line
    15: optional list<Tone> f14 = 7;
    /// one line
    16: optional list<Tone> f15 = 7
    17: required Box<i32> f16;
    18: required Box<i32> f17
    19: required Box<i32> f18 = 7;
    20: required Box<i32> f19 = 7
    21: optional Box<i32> f20;
    22: optional Box<i32> f21
    23: optional Box<i32> f22 = 7;
    24: optional Box<i32> f23 = 7
}
struct Field35 {
    /// one line
    1: required Box<i32> f0;
    /// one line
    2: required Box<i32> f1
    /// one line
    3: required Box<i32> f2 = 7;
    /// one line
    4: required Box<i32> f3 = 7
    /// one line
    5: optional Box<i32> f4;
    /// one line
    6: optional Box<i32> f5
    /// one line
    7: optional Box<i32> f6 = 7;
    /// one line
    8: optional Box<i32> f7 = 7
    9: required Box<bool> f8;
    10: required Box<bool> f9
    11: required Box<bool> f10 = 7;
    12: required Box<bool> f11 = 7
    13: optional Box<bool> f12;
    14: optional Box<bool> f13
    15: optional Box<bool> f14 = 7;
    16: optional Box<bool> f15 = 7
    /// one line
    17: required Box<bool> f16;
    /// one line
    18: required Box<bool> f17
    /// one line
    19: required Box<bool> f18 = 7;
    /// one line
    20: required Box<bool> f19 = 7
    /// one line
    21: optional Box<bool> f20;
    /// one line
    22: optional Box<bool> f21
    /// one line
    23: optional Box<bool> f22 = 7;
    /// one line
    24: optional Box<bool> f23 = 7
}
struct Field36 {
    1: required Box<Leaf> f0;
    2: required Box<Leaf> f1
    3: required Box<Leaf> f2 = 7;
    4: required Box<Leaf> f3 = 7
    5: optional Box<Leaf> f4;
    6: optional Box<Leaf> f5
    7: optional Box<Leaf> f6 = 7;
    8: optional Box<Leaf> f7 = 7
    /// one line
    9: required Box<Leaf> f8;
    /// one line
    10: required Box<Leaf> f9
    /// one line
    11: required Box<Leaf> f10 = 7;
    /// one line
    12: required Box<Leaf> f11 = 7
    /// one line
    13: optional Box<Leaf> f12;
    /// one line
    14: optional Box<Leaf> f13
    /// one line
    15: optional Box<Leaf> f14 = 7;
    /// one line
    16: optional Box<Leaf> f15 = 7
    17: required Box<string> f16;
    18: required Box<string> f17
    19: required Box<string> f18 = 7;
    20: required Box<string> f19 = 7
    21: optional Box<string> f20;
    22: optional Box<string> f21
    23: optional Box<string> f22 = 7;
    24: optional Box<string> f23 = 7
}
struct Field37 {
    /// one line
    1: required Box<string> f0;
    /// one line
    2: required Box<string> f1
    /// one line
    3: required Box<string> f2 = 7;
    /// one line
    4: required Box<string> f3 = 7
    /// one line
    5: optional Box<string> f4;
    /// one line
    6: optional Box<string> f5
    /// one line
    7: optional Box<string> f6 = 7;
    /// one line
    8: optional Box<string> f7 = 7
    9: required Box<str> f8;
    10: required Box<str> f9
    11: required Box<str> f10 = 7;
    12: required Box<str> f11 = 7
    13: optional Box<str> f12;
    14: optional Box<str> f13
    15: optional Box<str> f14 = 7;
    16: optional Box<str> f15 = 7
    /// one line
    17: required Box<str> f16;
    /// one line
    18: required Box<str> f17
    /// one line
    19: required Box<str> f18 = 7;
    /// one line
    20: required Box<str> f19 = 7
    /// one line
    21: optional Box<str> f20;
    /// one line
    22: optional Box<str> f21
    /// one line
    23: optional Box<str> f22 = 7;
    /// one line
    24: optional Box<str> f23 = 7
}
struct Field38 {
    1: required Box<Fork> f0;
    2: required Box<Fork> f1
    3: required Box<Fork> f2 = 7;
    4: required Box<Fork> f3 = 7
    5: optional Box<Fork> f4;
    6: optional Box<Fork> f5
    7: optional Box<Fork> f6 = 7;
    8: optional Box<Fork> f7 = 7
    /// one line
    9: required Box<Fork> f8;
    /// one line
    10: required Box<Fork> f9
    /// one line
    11: required Box<Fork> f10 = 7;
    /// one line
    12: required Box<Fork> f11 = 7
    /// one line
    13: optional Box<Fork> f12;
    /// one line
    14: optional Box<Fork> f13
    /// one line
    15: optional Box<Fork> f14 = 7;
    /// one line
    16: optional Box<Fork> f15 = 7
    17: required Rc<string> f16;
    18: required Rc<string> f17
    19: required Rc<string> f18 = 7;
    20: required Rc<string> f19 = 7
    21: optional Rc<string> f20;
    22: optional Rc<string> f21
    23: optional Rc<string> f22 = 7;
    24: optional Rc<string> f23 = 7
}
struct Field39 {
    /// one line
    1: required Rc<string> f0;
    /// one line
    2: required Rc<string> f1
    /// one line
    3: required Rc<string> f2 = 7;
    /// one line
    4: required Rc<string> f3 = 7
    /// one line
    5: optional Rc<string> f4;
    /// one line
    6: optional Rc<string> f5
    /// one line
    7: optional Rc<string> f6 = 7;
    /// one line
    8: optional Rc<string> f7 = 7
    9: required Rc<str> f8;
    10: required Rc<str> f9
    11: required Rc<str> f10 = 7;
    12: required Rc<str> f11 = 7
    13: optional Rc<str> f12;
    14: optional Rc<str> f13
    15: optional Rc<str> f14 = 7;
    16: optional Rc<str> f15 = 7
    /// one line
    17: required Rc<str> f16;
    /// one line
    18: required Rc<str> f17
    /// one line
    19: required Rc<str> f18 = 7;
    /// one line
    20: required Rc<str> f19 = 7
    /// one line
    21: optional Rc<str> f20;
    /// one line
    22: optional Rc<str> f21
    /// one line
    23: optional Rc<str> f22 = 7;
    /// one line
    24: optional Rc<str> f23 = 7
}
struct Field40 {
    1: required Rc<Leaf> f0;
    2: required Rc<Leaf> f1
    3: required Rc<Leaf> f2 = 7;
    4: required Rc<Leaf> f3 = 7
    5: optional Rc<Leaf> f4;
    6: optional Rc<Leaf> f5
    7: optional Rc<Leaf> f6 = 7;
    8: optional Rc<Leaf> f7 = 7
    /// one line
    9: required Rc<Leaf> f8;
    /// one line
    10: required Rc<Leaf> f9
    /// one line
    11: required Rc<Leaf> f10 = 7;
    /// one line
    12: required Rc<Leaf> f11 = 7
    /// one line
    13: optional Rc<Leaf> f12;
    /// one line
    14: optional Rc<Leaf> f13
    /// one line
    15: optional Rc<Leaf> f14 = 7;
    /// one line
    16: optional Rc<Leaf> f15 = 7
    17: required Rc<i64> f16;
    18: required Rc<i64> f17
    19: required Rc<i64> f18 = 7;
    20: required Rc<i64> f19 = 7
    21: optional Rc<i64> f20;
    22: optional Rc<i64> f21
    23: optional Rc<i64> f22 = 7;
    24: optional Rc<i64> f23 = 7
}
struct Field41 {
    /// one line
    1: required Rc<i64> f0;
    /// one line
    2: required Rc<i64> f1
    /// one line
    3: required Rc<i64> f2 = 7;
    /// one line
    4: required Rc<i64> f3 = 7
    /// one line
    5: optional Rc<i64> f4;
    /// one line
    6: optional Rc<i64> f5
    /// one line
    7: optional Rc<i64> f6 = 7;
    /// one line
    8: optional Rc<i64> f7 = 7
    9: required Rc<double> f8;
    10: required Rc<double> f9
    11: required Rc<double> f10 = 7;
    12: required Rc<double> f11 = 7
    13: optional Rc<double> f12;
    14: optional Rc<double> f13
    15: optional Rc<double> f14 = 7;
    16: optional Rc<double> f15 = 7
    /// one line
    17: required Rc<double> f16;
    /// one line
    18: required Rc<double> f17
    /// one line
    19: required Rc<double> f18 = 7;
    /// one line
    20: required Rc<double> f19 = 7
    /// one line
    21: optional Rc<double> f20;
    /// one line
    22: optional Rc<double> f21
    /// one line
    23: optional Rc<double> f22 = 7;
    /// one line
    24: optional Rc<double> f23 = 7
}
struct Field42 {
    1: required Rc<Tone> f0;
    2: required Rc<Tone> f1
    3: required Rc<Tone> f2 = 7;
    4: required Rc<Tone> f3 = 7
    5: optional Rc<Tone> f4;
    6: optional Rc<Tone> f5
    7: optional Rc<Tone> f6 = 7;
    8: optional Rc<Tone> f7 = 7
    /// one line
    9: required Rc<Tone> f8;
    /// one line
    10: required Rc<Tone> f9
    /// one line
    11: required Rc<Tone> f10 = 7;
    /// one line
    12: required Rc<Tone> f11 = 7
    /// one line
    13: optional Rc<Tone> f12;
    /// one line
    14: optional Rc<Tone> f13
    /// one line
    15: optional Rc<Tone> f14 = 7;
    /// one line
    16: optional Rc<Tone> f15 = 7
    17: required Arc<string> f16;
    18: required Arc<string> f17
    19: required Arc<string> f18 = 7;
    20: required Arc<string> f19 = 7
    21: optional Arc<string> f20;
    22: optional Arc<string> f21
    23: optional Arc<string> f22 = 7;
    24: optional Arc<string> f23 = 7
}
struct Field43 {
    /// one line
    1: required Arc<string> f0;
    /// one line
    2: required Arc<string> f1
    /// one line
    3: required Arc<string> f2 = 7;
    /// one line
    4: required Arc<string> f3 = 7
    /// one line
    5: optional Arc<string> f4;
    /// one line
    6: optional Arc<string> f5
    /// one line
    7: optional Arc<string> f6 = 7;
    /// one line
    8: optional Arc<string> f7 = 7
    9: required Arc<str> f8;
    10: required Arc<str> f9
    11: required Arc<str> f10 = 7;
    12: required Arc<str> f11 = 7
    13: optional Arc<str> f12;
    14: optional Arc<str> f13
    15: optional Arc<str> f14 = 7;
    16: optional Arc<str> f15 = 7
    /// one line
    17: required Arc<str> f16;
    /// one line
    18: required Arc<str> f17
    /// one line
    19: required Arc<str> f18 = 7;
    /// one line
    20: required Arc<str> f19 = 7
    /// one line
    21: optional Arc<str> f20;
    /// one line
    22: optional Arc<str> f21
    /// one line
    23: optional Arc<str> f22 = 7;
    /// one line
    24: optional Arc<str> f23 = 7
}
struct Field44 {
    1: required Arc<Fork> f0;
    2: required Arc<Fork> f1
    3: required Arc<Fork> f2 = 7;
    4: required Arc<Fork> f3 = 7
    5: optional Arc<Fork> f4;
    6: optional Arc<Fork> f5
    7: optional Arc<Fork> f6 = 7;
    8: optional Arc<Fork> f7 = 7
    /// one line
    9: required Arc<Fork> f8;
    /// one line
    10: required Arc<Fork> f9
    /// one line
    11: required Arc<Fork> f10 = 7;
    /// one line
    12: required Arc<Fork> f11 = 7
    /// one line
    13: optional Arc<Fork> f12;
    /// one line
    14: optional Arc<Fork> f13
    /// one line
    15: optional Arc<Fork> f14 = 7;
    /// one line
    16: optional Arc<Fork> f15 = 7
    17: required Arc<binary> f16;
    18: required Arc<binary> f17
    19: required Arc<binary> f18 = 7;
    20: required Arc<binary> f19 = 7
    21: optional Arc<binary> f20;
    22: optional Arc<binary> f21
    23: optional Arc<binary> f22 = 7;
    24: optional Arc<binary> f23 = 7
}
struct Field45 {
    /// one line
    1: required Arc<binary> f0;
    /// one line
    2: required Arc<binary> f1
    /// one line
    3: required Arc<binary> f2 = 7;
    /// one line
    4: required Arc<binary> f3 = 7
    /// one line
    5: optional Arc<binary> f4;
    /// one line
    6: optional Arc<binary> f5
    /// one line
    7: optional Arc<binary> f6 = 7;
    /// one line
    8: optional Arc<binary> f7 = 7
    9: required Arc<byte> f8;
    10: required Arc<byte> f9
    11: required Arc<byte> f10 = 7;
    12: required Arc<byte> f11 = 7
    13: optional Arc<byte> f12;
    14: optional Arc<byte> f13
    15: optional Arc<byte> f14 = 7;
    16: optional Arc<byte> f15 = 7
    /// one line
    17: required Arc<byte> f16;
    /// one line
    18: required Arc<byte> f17
    /// one line
    19: required Arc<byte> f18 = 7;
    /// one line
    20: required Arc<byte> f19 = 7
    /// one line
    21: optional Arc<byte> f20;
    /// one line
    22: optional Arc<byte> f21
    /// one line
    23: optional Arc<byte> f22 = 7;
    /// one line
    24: optional Arc<byte> f23 = 7
}
struct Pair0 {
    1: optional list<i32> a;
    2: required Tone b;
}
struct Pair1 {
    1: optional list<i32> a;
    2: required Tone b
}
struct Pair2 {
    1: optional list<i32> a;
    2: optional Tone b;
}
struct Pair3 {
    1: optional list<i32> a;
    2: optional Tone b
}
struct Pair4 {
    1: optional list<i32> a;
    /// one line
    2: required Tone b;
}
struct Pair5 {
    1: optional list<i32> a;
    /// one line
    2: required Tone b
}
struct Pair6 {
    1: optional list<i32> a;
    /// one line
    2: optional Tone b;
}
struct Pair7 {
    1: optional list<i32> a;
    /// one line
    2: optional Tone b
}
struct Pair8 {
    1: optional list<i32> a;
    /** block
       of two lines */
    2: required Tone b;
}
struct Pair9 {
    1: optional list<i32> a;
    /** block
       of two lines */
    2: required Tone b
}
struct Pair10 {
    1: optional list<i32> a;
    /** block
       of two lines */
    2: optional Tone b;
}
struct Pair11 {
    1: optional list<i32> a;
    /** block
       of two lines */
    2: optional Tone b
}
struct Pair12 {
    1: optional list<i32> a;
    // plain
    2: required Tone b;
}
struct Pair13 {
    1: optional list<i32> a;
    // plain
    2: required Tone b
}
struct Pair14 {
    1: optional list<i32> a;
    // plain
    2: optional Tone b;
}
struct Pair15 {
    1: optional list<i32> a;
    // plain
    2: optional Tone b
}
struct Pair16 {
    1: optional list<i32> a;
    /* plain block */
    2: required Tone b;
}
struct Pair17 {
    1: optional list<i32> a;
    /* plain block */
    2: required Tone b
}
struct Pair18 {
    1: optional list<i32> a;
    /* plain block */
    2: optional Tone b;
}
struct Pair19 {
    1: optional list<i32> a;
    /* plain block */
    2: optional Tone b
}
struct Pair20 {
    1: optional list<i32> a;
    /// first
    /// second
    /** third */
    2: required Tone b;
}
struct Pair21 {
    1: optional list<i32> a;
    /// first
    /// second
    /** third */
    2: required Tone b
}
struct Pair22 {
    1: optional list<i32> a;
    /// first
    /// second
    /** third */
    2: optional Tone b;
}
struct Pair23 {
    1: optional list<i32> a;
    /// first
    /// second
    /** third */
    2: optional Tone b
}
struct Pair24 {
    1: optional list<i32> a
    2: required Tone b;
}
struct Pair25 {
    1: optional list<i32> a
    2: required Tone b
}
struct Pair26 {
    1: optional list<i32> a
    2: optional Tone b;
}
struct Pair27 {
    1: optional list<i32> a
    2: optional Tone b
}
struct Pair28 {
    1: optional list<i32> a
    /// one line
    2: required Tone b;
}
struct Pair29 {
    1: optional list<i32> a
    /// one line
    2: required Tone b
}
struct Pair30 {
    1: optional list<i32> a
    /// one line
    2: optional Tone b;
}
struct Pair31 {
    1: optional list<i32> a
    /// one line
    2: optional Tone b
}
struct Pair32 {
    1: optional list<i32> a
    /** block
       of two lines */
    2: required Tone b;
}
struct Pair33 {
    1: optional list<i32> a
    /** block
       of two lines */
    2: required Tone b
}
struct Pair34 {
    1: optional list<i32> a
    /** block
       of two lines */
    2: optional Tone b;
}
struct Pair35 {
    1: optional list<i32> a
    /** block
       of two lines */
    2: optional Tone b
}
struct Pair36 {
    1: optional list<i32> a
    // plain
    2: required Tone b;
}
struct Pair37 {
    1: optional list<i32> a
    // plain
    2: required Tone b
}
struct Pair38 {
    1: optional list<i32> a
    // plain
    2: optional Tone b;
}
struct Pair39 {
    1: optional list<i32> a
    // plain
    2: optional Tone b
}
struct Pair40 {
    1: optional list<i32> a
    /* plain block */
    2: required Tone b;
}
struct Pair41 {
    1: optional list<i32> a
    /* plain block */
    2: required Tone b
}
struct Pair42 {
    1: optional list<i32> a
    /* plain block */
    2: optional Tone b;
}
struct Pair43 {
    1: optional list<i32> a
    /* plain block */
    2: optional Tone b
}
struct Pair44 {
    1: optional list<i32> a
    /// first
    /// second
    /** third */
    2: required Tone b;
}
struct Pair45 {
    1: optional list<i32> a
    /// first
    /// second
    /** third */
    2: required Tone b
}
struct Pair46 {
    1: optional list<i32> a
    /// first
    /// second
    /** third */
    2: optional Tone b;
}
struct Pair47 {
    1: optional list<i32> a
    /// first
    /// second
    /** third */
    2: optional Tone b
}
struct Pair48 {
    1: optional list<i32> a = 7;
    2: required Tone b;
}
struct Pair49 {
    1: optional list<i32> a = 7;
    2: required Tone b
}
struct Pair50 {
    1: optional list<i32> a = 7;
    2: optional Tone b;
}
struct Pair51 {
    1: optional list<i32> a = 7;
    2: optional Tone b
}
struct Pair52 {
    1: optional list<i32> a = 7;
    /// one line
    2: required Tone b;
}
struct Pair53 {
    1: optional list<i32> a = 7;
    /// one line
    2: required Tone b
}
struct Pair54 {
    1: optional list<i32> a = 7;
    /// one line
    2: optional Tone b;
}
struct Pair55 {
    1: optional list<i32> a = 7;
    /// one line
    2: optional Tone b
}
struct Pair56 {
    1: optional list<i32> a = 7;
    /** block
       of two lines */
    2: required Tone b;
}
struct Pair57 {
    1: optional list<i32> a = 7;
    /** block
       of two lines */
    2: required Tone b
}
struct Pair58 {
    1: optional list<i32> a = 7;
    /** block
       of two lines */
    2: optional Tone b;
}
struct Pair59 {
    1: optional list<i32> a = 7;
    /** block
       of two lines */
    2: optional Tone b
}
struct Pair60 {
    1: optional list<i32> a = 7;
    // plain
    2: required Tone b;
}
struct Pair61 {
    1: optional list<i32> a = 7;
    // plain
    2: required Tone b
}
struct Pair62 {
    1: optional list<i32> a = 7;
    // plain
    2: optional Tone b;
}
struct Pair63 {
    1: optional list<i32> a = 7;
    // plain
    2: optional Tone b
}
struct Pair64 {
    1: optional list<i32> a = 7;
    /* plain block */
    2: required Tone b;
}
struct Pair65 {
    1: optional list<i32> a = 7;
    /* plain block */
    2: required Tone b
}
struct Pair66 {
    1: optional list<i32> a = 7;
    /* plain block */
    2: optional Tone b;
}
struct Pair67 {
    1: optional list<i32> a = 7;
    /* plain block */
    2: optional Tone b
}
struct Pair68 {
    1: optional list<i32> a = 7;
    /// first
    /// second
    /** third */
    2: required Tone b;
}
struct Pair69 {
    1: optional list<i32> a = 7;
    /// first
    /// second
    /** third */
    2: required Tone b
}
struct Pair70 {
    1: optional list<i32> a = 7;
    /// first
    /// second
    /** third */
    2: optional Tone b;
}
struct Pair71 {
    1: optional list<i32> a = 7;
    /// first
    /// second
    /** third */
    2: optional Tone b
}
struct Pair72 {
    1: optional list<i32> a = 7
    2: required Tone b;
}
struct Pair73 {
    1: optional list<i32> a = 7
    2: required Tone b
}
struct Pair74 {
    1: optional list<i32> a = 7
    2: optional Tone b;
}
struct Pair75 {
    1: optional list<i32> a = 7
    2: optional Tone b
}
struct Pair76 {
    1: optional list<i32> a = 7
    /// one line
    2: required Tone b;
}
struct Pair77 {
    1: optional list<i32> a = 7
    /// one line
    2: required Tone b
}
struct Pair78 {
    1: optional list<i32> a = 7
    /// one line
    2: optional Tone b;
}
struct Pair79 {
    1: optional list<i32> a = 7
    /// one line
    2: optional Tone b
}
struct Pair80 {
    1: optional list<i32> a = 7
    /** block
       of two lines */
    2: required Tone b;
}
struct Pair81 {
    1: optional list<i32> a = 7
    /** block
       of two lines */
    2: required Tone b
}
struct Pair82 {
    1: optional list<i32> a = 7
    /** block
       of two lines */
    2: optional Tone b;
}
struct Pair83 {
    1: optional list<i32> a = 7
    /** block
       of two lines */
    2: optional Tone b
}
struct Pair84 {
    1: optional list<i32> a = 7
    // plain
    2: required Tone b;
}
struct Pair85 {
    1: optional list<i32> a = 7
    // plain
    2: required Tone b
}
struct Pair86 {
    1: optional list<i32> a = 7
    // plain
    2: optional Tone b;
}
struct Pair87 {
    1: optional list<i32> a = 7
    // plain
    2: optional Tone b
}
struct Pair88 {
    1: optional list<i32> a = 7
    /* plain block */
    2: required Tone b;
}
struct Pair89 {
    1: optional list<i32> a = 7
    /* plain block */
    2: required Tone b
}
struct Pair90 {
    1: optional list<i32> a = 7
    /* plain block */
    2: optional Tone b;
}
struct Pair91 {
    1: optional list<i32> a = 7
    /* plain block */
    2: optional Tone b
}
struct Pair92 {
    1: optional list<i32> a = 7
    /// first
    /// second
    /** third */
    2: required Tone b;
}
struct Pair93 {
    1: optional list<i32> a = 7
    /// first
    /// second
    /** third */
    2: required Tone b
}
struct Pair94 {
    1: optional list<i32> a = 7
    /// first
    /// second
    /** third */
    2: optional Tone b;
}
struct Pair95 {
    1: optional list<i32> a = 7
    /// first
    /// second
    /** third */
    2: optional Tone b
}
union Member0 {
    1: bool m0;
    2: bool m1
    3: byte m2;
    4: byte m3
    5: i8 m4;
    6: i8 m5
    7: i16 m6;
    8: i16 m7
    9: i32 m8;
    10: i32 m9
    11: i64 m10;
    12: i64 m11
    13: double m12;
    14: double m13
    15: string m14;
    16: string m15
    17: String m16;
    18: String m17
    19: binary m18;
    20: binary m19
    21: Leaf m20;
}
union Member1 {
    1: Leaf m0
    2: Fork m1;
    3: Fork m2
    4: Tone m3;
    5: Tone m4
    6: list<bool> m5;
    7: list<bool> m6
    8: list<byte> m7;
    9: list<byte> m8
    10: list<i8> m9;
    11: list<i8> m10
    12: list<i16> m11;
    13: list<i16> m12
    14: list<i32> m13;
    15: list<i32> m14
    16: list<i64> m15;
    17: list<i64> m16
    18: list<double> m17;
    19: list<double> m18
    20: list<string> m19;
    21: list<string> m20
}
union Member2 {
    1: list<binary> m0;
    2: list<binary> m1
    3: list<Leaf> m2;
    4: list<Leaf> m3
    5: list<Fork> m4;
    6: list<Fork> m5
    7: list<Tone> m6;
    8: list<Tone> m7
    9: Box<i32> m8;
    10: Box<i32> m9
    11: Box<bool> m10;
    12: Box<bool> m11
    13: Box<Leaf> m12;
    14: Box<Leaf> m13
    15: Box<string> m14;
    16: Box<string> m15
    17: Box<str> m16;
    18: Box<str> m17
    19: Box<Fork> m18;
    20: Box<Fork> m19
    21: Rc<string> m20;
}
union Member3 {
    1: Rc<string> m0
    2: Rc<str> m1;
    3: Rc<str> m2
    4: Rc<Leaf> m3;
    5: Rc<Leaf> m4
    6: Rc<i64> m5;
    7: Rc<i64> m6
    8: Rc<double> m7;
    9: Rc<double> m8
    10: Rc<Tone> m9;
    11: Rc<Tone> m10
    12: Arc<string> m11;
    13: Arc<string> m12
    14: Arc<str> m13;
    15: Arc<str> m14
    16: Arc<Fork> m15;
    17: Arc<Fork> m16
    18: Arc<binary> m17;
    19: Arc<binary> m18
    20: Arc<byte> m19;
    21: Arc<byte> m20
}
union Member4 {
    /// one line
    1: bool m0;
    /// one line
    2: bool m1
    /// one line
    3: byte m2;
    /// one line
    4: byte m3
    /// one line
    5: i8 m4;
    /// one line
    6: i8 m5
    /// one line
    7: i16 m6;
    /// one line
    8: i16 m7
    /// one line
    9: i32 m8;
    /// one line
    10: i32 m9
    /// one line
    11: i64 m10;
    /// one line
    12: i64 m11
    /// one line
    13: double m12;
    /// one line
    14: double m13
    /// one line
    15: string m14;
    /// one line
    16: string m15
    /// one line
    17: String m16;
    /// one line
    18: String m17
    /// one line
    19: binary m18;
    /// one line
    20: binary m19
    /// one line
    21: Leaf m20;
}
union Member5 {
    /// one line
    1: Leaf m0
    /// one line
    2: Fork m1;
    /// one line
    3: Fork m2
    /// one line
    4: Tone m3;
    /// one line
    5: Tone m4
    /// one line
    6: list<bool> m5;
    /// one line
    7: list<bool> m6
    /// one line
    8: list<byte> m7;
    /// one line
    9: list<byte> m8
    /// one line
    10: list<i8> m9;
    /// one line
    11: list<i8> m10
    /// one line
    12: list<i16> m11;
    /// one line
    13: list<i16> m12
    /// one line
    14: list<i32> m13;
    /// one line
    15: list<i32> m14
    /// one line
    16: list<i64> m15;
    /// one line
    17: list<i64> m16
    /// one line
    18: list<double> m17;
    /// one line
    19: list<double> m18
    /// one line
    20: list<string> m19;
    /// one line
    21: list<string> m20
}
union Member6 {
    /// one line
    1: list<binary> m0;
    /// one line
    2: list<binary> m1
    /// one line
    3: list<Leaf> m2;
    /// one line
    4: list<Leaf> m3
    /// one line
    5: list<Fork> m4;
    /// one line
    6: list<Fork> m5
    /// one line
    7: list<Tone> m6;
    /// one line
    8: list<Tone> m7
    /// one line
    9: Box<i32> m8;
    /// one line
    10: Box<i32> m9
    /// one line
    11: Box<bool> m10;
    /// one line
    12: Box<bool> m11
    /// one line
    13: Box<Leaf> m12;
    /// one line
    14: Box<Leaf> m13
    /// one line
    15: Box<string> m14;
    /// one line
    16: Box<string> m15
    /// one line
    17: Box<str> m16;
    /// one line
    18: Box<str> m17
    /// one line
    19: Box<Fork> m18;
    /// one line
    20: Box<Fork> m19
    /// one line
    21: Rc<string> m20;
}
union Member7 {
    /// one line
    1: Rc<string> m0
    /// one line
    2: Rc<str> m1;
    /// one line
    3: Rc<str> m2
    /// one line
    4: Rc<Leaf> m3;
    /// one line
    5: Rc<Leaf> m4
    /// one line
    6: Rc<i64> m5;
    /// one line
    7: Rc<i64> m6
    /// one line
    8: Rc<double> m7;
    /// one line
    9: Rc<double> m8
    /// one line
    10: Rc<Tone> m9;
    /// one line
    11: Rc<Tone> m10
    /// one line
    12: Arc<string> m11;
    /// one line
    13: Arc<string> m12
    /// one line
    14: Arc<str> m13;
    /// one line
    15: Arc<str> m14
    /// one line
    16: Arc<Fork> m15;
    /// one line
    17: Arc<Fork> m16
    /// one line
    18: Arc<binary> m17;
    /// one line
    19: Arc<binary> m18
    /// one line
    20: Arc<byte> m19;
    /// one line
    21: Arc<byte> m20
}
union Member8 {
    /** block
       of two lines */
    1: bool m0;
    /** block
       of two lines */
    2: bool m1
    /** block
       of two lines */
    3: byte m2;
    /** block
       of two lines */
    4: byte m3
    /** block
       of two lines */
    5: i8 m4;
    /** block
       of two lines */
    6: i8 m5
    /** block
       of two lines */
    7: i16 m6;
    /** block
       of two lines */
    8: i16 m7
    /** block
       of two lines */
    9: i32 m8;
    /** block
       of two lines */
    10: i32 m9
    /** block
       of two lines */
    11: i64 m10;
    /** block
       of two lines */
    12: i64 m11
    /** block
       of two lines */
    13: double m12;
    /** block
       of two lines */
    14: double m13
    /** block
       of two lines */
    15: string m14;
    /** block
       of two lines */
    16: string m15
    /** block
       of two lines */
    17: String m16;
    /** block
       of two lines */
    18: String m17
    /** block
       of two lines */
    19: binary m18;
    /** block
       of two lines */
    20: binary m19
    /** block
       of two lines */
    21: Leaf m20;
}
union Member9 {
    /** block
       of two lines */
    1: Leaf m0
    /** block
       of two lines */
    2: Fork m1;
    /** block
       of two lines */
    3: Fork m2
    /** block
       of two lines */
    4: Tone m3;
    /** block
       of two lines */
    5: Tone m4
    /** block
       of two lines */
    6: list<bool> m5;
    /** block
       of two lines */
    7: list<bool> m6
    /** block
       of two lines */
    8: list<byte> m7;
    /** block
       of two lines */
    9: list<byte> m8
    /** block
       of two lines */
    10: list<i8> m9;
    /** block
       of two lines */
    11: list<i8> m10
    /** block
       of two lines */
    12: list<i16> m11;
    /** block
       of two lines */
    13: list<i16> m12
    /** block
       of two lines */
    14: list<i32> m13;
    /** block
       of two lines */
    15: list<i32> m14
    /** block
       of two lines */
    16: list<i64> m15;
    /** block
       of two lines */
    17: list<i64> m16
    /** block
       of two lines */
    18: list<double> m17;
    /** block
       of two lines */
    19: list<double> m18
    /** block
       of two lines */
    20: list<string> m19;
    /** block
       of two lines */
    21: list<string> m20
}
union Member10 {
    /** block
       of two lines */
    1: list<binary> m0;
    /** block
       of two lines */
    2: list<binary> m1
    /** block
       of two lines */
    3: list<Leaf> m2;
    /** block
       of two lines */
    4: list<Leaf> m3
    /** block
       of two lines */
    5: list<Fork> m4;
    /** block
       of two lines */
    6: list<Fork> m5
    /** block
       of two lines */
    7: list<Tone> m6;
    /** block
       of two lines */
    8: list<Tone> m7
    /** block
       of two lines */
    9: Box<i32> m8;
    /** block
       of two lines */
    10: Box<i32> m9
    /** block
       of two lines */
    11: Box<bool> m10;
    /** block
       of two lines */
    12: Box<bool> m11
    /** block
       of two lines */
    13: Box<Leaf> m12;
    /** block
       of two lines */
    14: Box<Leaf> m13
    /** block
       of two lines */
    15: Box<string> m14;
    /** block
       of two lines */
    16: Box<string> m15
    /** block
       of two lines */
    17: Box<str> m16;
    /** block
       of two lines */
    18: Box<str> m17
    /** block
       of two lines */
    19: Box<Fork> m18;
    /** block
       of two lines */
    20: Box<Fork> m19
    /** block
       of two lines */
    21: Rc<string> m20;
}
union Member11 {
    /** block
       of two lines */
    1: Rc<string> m0
    /** block
       of two lines */
    2: Rc<str> m1;
    /** block
       of two lines */
    3: Rc<str> m2
    /** block
       of two lines */
    4: Rc<Leaf> m3;
    /** block
       of two lines */
    5: Rc<Leaf> m4
    /** block
       of two lines */
    6: Rc<i64> m5;
    /** block
       of two lines */
    7: Rc<i64> m6
    /** block
       of two lines */
    8: Rc<double> m7;
    /** block
       of two lines */
    9: Rc<double> m8
    /** block
       of two lines */
    10: Rc<Tone> m9;
    /** block
       of two lines */
    11: Rc<Tone> m10
    /** block
       of two lines */
    12: Arc<string> m11;
    /** block
       of two lines */
    13: Arc<string> m12
    /** block
       of two lines */
    14: Arc<str> m13;
    /** block
       of two lines */
    15: Arc<str> m14
    /** block
       of two lines */
    16: Arc<Fork> m15;
    /** block
       of two lines */
    17: Arc<Fork> m16
    /** block
       of two lines */
    18: Arc<binary> m17;
    /** block
       of two lines */
    19: Arc<binary> m18
    /** block
       of two lines */
    20: Arc<byte> m19;
    /** block
       of two lines */
    21: Arc<byte> m20
}
union Member12 {
    // plain
    1: bool m0;
    // plain
    2: bool m1
    // plain
    3: byte m2;
    // plain
    4: byte m3
    // plain
    5: list<Leaf> m4;
    // plain
    6: list<Leaf> m5
    // plain
    7: Rc<str> m6;
    // plain
    8: Rc<str> m7
    /* plain block */
    9: bool m8;
    /* plain block */
    10: bool m9
    /* plain block */
    11: byte m10;
    /* plain block */
    12: byte m11
    /* plain block */
    13: list<Leaf> m12;
    /* plain block */
    14: list<Leaf> m13
    /* plain block */
    15: Rc<str> m14;
    /* plain block */
    16: Rc<str> m15
    /// first
    /// second
    /** third */
    17: bool m16;
    /// first
    /// second
    /** third */
    18: bool m17
    /// first
    /// second
    /** third */
    19: byte m18;
    /// first
    /// second
    /** third */
    20: byte m19
    /// first
    /// second
    /** third */
    21: list<Leaf> m20;
}
union Member13 {
    /// first
    /// second
    /** third */
    1: list<Leaf> m0
    /// first
    /// second
    /** third */
    2: Rc<str> m1;
    /// first
    /// second
    /** third */
    3: Rc<str> m2
}
union Lone0 {
    3: i64 only;
}
union Lone1 {
    3: i64 only
}
union Lone2 {
    /// one line
    3: i64 only;
}
union Lone3 {
    /// one line
    3: i64 only
}
union Lone4 {
    /** block
       of two lines */
    3: i64 only;
}
union Lone5 {
    /** block
       of two lines */
    3: i64 only
}
union Lone6 {
    // plain
    3: i64 only;
}
union Lone7 {
    // plain
    3: i64 only
}
union Lone8 {
    /* plain block */
    3: i64 only;
}
union Lone9 {
    /* plain block */
    3: i64 only
}
union Lone10 {
    /// first
    /// second
    /** third */
    3: i64 only;
}
union Lone11 {
    /// first
    /// second
    /** third */
    3: i64 only
}
enum Consts0 {
    C0 = 0;
    C1 = 1;
    C2 = -1;
    C3 = 127;
    C4 = 128;
    C5 = -129;
    C6 = 2147483647;
    C7 = -2147483648;
}
enum Consts1 {
    /// one line
    C0 = 0;
    /// one line
    C1 = 1;
    /// one line
    C2 = -1;
    /// one line
    C3 = 127;
    /// one line
    C4 = 128;
    /// one line
    C5 = -129;
    /// one line
    C6 = 2147483647;
    /// one line
    C7 = -2147483648;
}
enum Consts2 {
    /** block
       of two lines */
    C0 = 0;
    /** block
       of two lines */
    C1 = 1;
    /** block
       of two lines */
    C2 = -1;
    /** block
       of two lines */
    C3 = 127;
    /** block
       of two lines */
    C4 = 128;
    /** block
       of two lines */
    C5 = -129;
    /** block
       of two lines */
    C6 = 2147483647;
    /** block
       of two lines */
    C7 = -2147483648;
}
enum Consts3 {
    // plain
    C0 = 0;
    // plain
    C1 = 1;
    // plain
    C2 = -1;
    // plain
    C3 = 127;
    // plain
    C4 = 128;
    // plain
    C5 = -129;
    // plain
    C6 = 2147483647;
    // plain
    C7 = -2147483648;
}
enum Consts4 {
    /* plain block */
    C0 = 0;
    /* plain block */
    C1 = 1;
    /* plain block */
    C2 = -1;
    /* plain block */
    C3 = 127;
    /* plain block */
    C4 = 128;
    /* plain block */
    C5 = -129;
    /* plain block */
    C6 = 2147483647;
    /* plain block */
    C7 = -2147483648;
}
enum Consts5 {
    /// first
    /// second
    /** third */
    C0 = 0;
    /// first
    /// second
    /** third */
    C1 = 1;
    /// first
    /// second
    /** third */
    C2 = -1;
    /// first
    /// second
    /** third */
    C3 = 127;
    /// first
    /// second
    /** third */
    C4 = 128;
    /// first
    /// second
    /** third */
    C5 = -129;
    /// first
    /// second
    /** third */
    C6 = 2147483647;
    /// first
    /// second
    /** third */
    C7 = -2147483648;
}
enum NoConsts {}
struct RequiredNames0 {
    1: required i32 input;
    2: required bool output;
    3: required string last_field_id;
    4: required list<i32> field_type;
    5: required i32 result;
    6: required bool inner;
    7: required string stop;
    8: required list<i32> value;
    9: required i32 values;
    10: required bool new;
    11: required string default;
    12: required list<i32> name;
    13: required i32 len;
}
struct OptionalNames0 {
    1: optional i32 input;
    2: optional bool output;
    3: optional string last_field_id;
    4: optional list<i32> field_type;
    5: optional i32 result;
    6: optional bool inner;
    7: optional string stop;
    8: optional list<i32> value;
    9: optional i32 values;
    10: optional bool new;
    11: optional string default;
    12: optional list<i32> name;
    13: optional i32 len;
}
union AnyNames0 {
    1: i32 input;
    2: bool output;
    3: string last_field_id;
    4: list<i32> field_type;
    5: i32 result;
    6: bool inner;
    7: string stop;
    8: list<i32> value;
    9: i32 values;
    10: bool new;
    11: string default;
    12: list<i32> name;
    13: i32 len;
}
struct RequiredNames13 {
    1: required i32 index;
    2: required bool other;
    3: required string field_id;
    4: required list<i32> header;
    5: required i32 this;
    6: required bool me;
    7: required string flag;
    8: required list<i32> found;
    9: required i32 seen;
    10: required bool missing;
    11: required string i;
    12: required list<i32> x;
    13: required i32 e;
}
struct OptionalNames13 {
    1: optional i32 index;
    2: optional bool other;
    3: optional string field_id;
    4: optional list<i32> header;
    5: optional i32 this;
    6: optional bool me;
    7: optional string flag;
    8: optional list<i32> found;
    9: optional i32 seen;
    10: optional bool missing;
    11: optional string i;
    12: optional list<i32> x;
    13: optional i32 e;
}
union AnyNames13 {
    1: i32 index;
    2: bool other;
    3: string field_id;
    4: list<i32> header;
    5: i32 this;
    6: bool me;
    7: string flag;
    8: list<i32> found;
    9: i32 seen;
    10: bool missing;
    11: string i;
    12: list<i32> x;
    13: i32 e;
}
struct RequiredNames26 {
    1: required i32 r;
    2: required bool f;
    3: required string fmt;
    4: required list<i32> clone;
    5: required i32 eq;
    6: required bool from;
    7: required string into;
    8: required list<i32> fill_thrift;
    9: required i32 write_thrift;
    10: required bool read_thrift;
    11: required string fill_thrift_field;
    12: required list<i32> write_thrift_field;
    13: required i32 required;
}
struct OptionalNames26 {
    1: optional i32 r;
    2: optional bool f;
    3: optional string fmt;
    4: optional list<i32> clone;
    5: optional i32 eq;
    6: optional bool from;
    7: optional string into;
    8: optional list<i32> fill_thrift;
    9: optional i32 write_thrift;
    10: optional bool read_thrift;
    11: optional string fill_thrift_field;
    12: optional list<i32> write_thrift_field;
    13: optional i32 required;
}
union AnyNames26 {
    1: i32 r;
    2: bool f;
    3: string fmt;
    4: list<i32> clone;
    5: i32 eq;
    6: bool from;
    7: string into;
    8: list<i32> fill_thrift;
    9: i32 write_thrift;
    10: bool read_thrift;
    11: string fill_thrift_field;
    12: list<i32> write_thrift_field;
    13: i32 required;
}
struct RequiredNames39 {
    1: required i32 optional;
    2: required bool list;
    3: required string set;
    4: required list<i32> string;
    5: required i32 binary;
    6: required bool double;
    7: required string union;
    8: required list<i32> namespace;
    9: required i32 thrift;
    10: required bool camelCase;
    11: required string UPPER;
    12: required list<i32> _hidden;
    13: required i32 a1;
}
struct OptionalNames39 {
    1: optional i32 optional;
    2: optional bool list;
    3: optional string set;
    4: optional list<i32> string;
    5: optional i32 binary;
    6: optional bool double;
    7: optional string union;
    8: optional list<i32> namespace;
    9: optional i32 thrift;
    10: optional bool camelCase;
    11: optional string UPPER;
    12: optional list<i32> _hidden;
    13: optional i32 a1;
}
union AnyNames39 {
    1: i32 optional;
    2: bool list;
    3: string set;
    4: list<i32> string;
    5: i32 binary;
    6: bool double;
    7: string union;
    8: list<i32> namespace;
    9: i32 thrift;
    10: bool camelCase;
    11: string UPPER;
    12: list<i32> _hidden;
    13: i32 a1;
}
struct Result { 1: required i32 a; 2: optional bool b; }
struct Error { 1: required i32 a; 2: optional bool b; }
struct ThriftError { 1: required i32 a; 2: optional bool b; }
struct CompactThriftInput { 1: required i32 a; 2: optional bool b; }
struct FieldName { 1: required i32 a; 2: optional bool b; }
struct lower { 1: required i32 a; 2: optional bool b; }
struct T { 1: required i32 a; 2: optional bool b; }
struct Rc { 1: required i32 a; 2: optional bool b; }
struct Arc { 1: required i32 a; 2: optional bool b; }
struct Read { 1: required i32 a; 2: optional bool b; }
struct Cow { 1: required i32 a; 2: optional bool b; }
struct Seq0b { 1: optional bool a }
struct Seq1b {}
struct Seq1c {}
union Seq2b { 1: i32 a }
enum Seq3b { A = 1; }
struct Seq3c {}
namespace rust Seq4b
/// one line
struct Seq5b { 1: optional bool a }
struct Seq5c {}
/// one line
struct Seq6b {}
/// one line
union Seq7b { 1: i32 a }
struct Seq7c {}
/// one line
enum Seq8b { A = 1; }
/// one line
namespace rust Seq9b
struct Seq9c {}
/** block
   of two lines */
struct Seq10b { 1: optional bool a }
/** block
   of two lines */
struct Seq11b {}
struct Seq11c {}
/** block
   of two lines */
union Seq12b { 1: i32 a }
/** block
   of two lines */
enum Seq13b { A = 1; }
struct Seq13c {}
/** block
   of two lines */
namespace rust Seq14b
// plain
struct Seq15b { 1: optional bool a }
struct Seq15c {}
// plain
struct Seq16b {}
// plain
union Seq17b { 1: i32 a }
struct Seq17c {}
// plain
enum Seq18b { A = 1; }
// plain
namespace rust Seq19b
struct Seq19c {}
/* plain block */
struct Seq20b { 1: optional bool a }
/* plain block */
struct Seq21b {}
struct Seq21c {}
/* plain block */
union Seq22b { 1: i32 a }
/* plain block */
enum Seq23b { A = 1; }
struct Seq23c {}
/* plain block */
namespace rust Seq24b
/// first
/// second
/** third */
struct Seq25b { 1: optional bool a }
struct Seq25c {}
/// first
/// second
/** third */
struct Seq26b {}
/// first
/// second
/** third */
union Seq27b { 1: i32 a }
struct Seq27c {}
/// first
/// second
/** third */
enum Seq28b { A = 1; }
/// first
/// second
/** third */
namespace rust Seq29b
struct Seq29c {}
struct Seq30a { 1: optional bool a }
struct Seq30b { 1: optional bool a }
struct Seq31a { 1: optional bool a }
struct Seq31b {}
struct Seq31c {}
struct Seq32a { 1: optional bool a }
union Seq32b { 1: i32 a }
struct Seq33a { 1: optional bool a }
enum Seq33b { A = 1; }
struct Seq33c {}
struct Seq34a { 1: optional bool a }
namespace rust Seq34b
struct Seq35a { 1: optional bool a }
/// one line
struct Seq35b { 1: optional bool a }
struct Seq35c {}
struct Seq36a { 1: optional bool a }
/// one line
struct Seq36b {}
struct Seq37a { 1: optional bool a }
/// one line
union Seq37b { 1: i32 a }
struct Seq37c {}
struct Seq38a { 1: optional bool a }
/// one line
enum Seq38b { A = 1; }
struct Seq39a { 1: optional bool a }
/// one line
namespace rust Seq39b
struct Seq39c {}
struct Seq40a { 1: optional bool a }
/** block
   of two lines */
struct Seq40b { 1: optional bool a }
struct Seq41a { 1: optional bool a }
/** block
   of two lines */
struct Seq41b {}
struct Seq41c {}
struct Seq42a { 1: optional bool a }
/** block
   of two lines */
union Seq42b { 1: i32 a }
struct Seq43a { 1: optional bool a }
/** block
   of two lines */
enum Seq43b { A = 1; }
struct Seq43c {}
struct Seq44a { 1: optional bool a }
/** block
   of two lines */
namespace rust Seq44b
struct Seq45a { 1: optional bool a }
// plain
struct Seq45b { 1: optional bool a }
struct Seq45c {}
struct Seq46a { 1: optional bool a }
// plain
struct Seq46b {}
struct Seq47a { 1: optional bool a }
// plain
union Seq47b { 1: i32 a }
struct Seq47c {}
struct Seq48a { 1: optional bool a }
// plain
enum Seq48b { A = 1; }
struct Seq49a { 1: optional bool a }
// plain
namespace rust Seq49b
struct Seq49c {}
struct Seq50a { 1: optional bool a }
/* plain block */
struct Seq50b { 1: optional bool a }
struct Seq51a { 1: optional bool a }
/* plain block */
struct Seq51b {}
struct Seq51c {}
struct Seq52a { 1: optional bool a }
/* plain block */
union Seq52b { 1: i32 a }
struct Seq53a { 1: optional bool a }
/* plain block */
enum Seq53b { A = 1; }
struct Seq53c {}
struct Seq54a { 1: optional bool a }
/* plain block */
namespace rust Seq54b
struct Seq55a { 1: optional bool a }
/// first
/// second
/** third */
struct Seq55b { 1: optional bool a }
struct Seq55c {}
struct Seq56a { 1: optional bool a }
/// first
/// second
/** third */
struct Seq56b {}
struct Seq57a { 1: optional bool a }
/// first
/// second
/** third */
union Seq57b { 1: i32 a }
struct Seq57c {}
struct Seq58a { 1: optional bool a }
/// first
/// second
/** third */
enum Seq58b { A = 1; }
struct Seq59a { 1: optional bool a }
/// first
/// second
/** third */
namespace rust Seq59b
struct Seq59c {}
struct Seq60a {}
struct Seq60b { 1: optional bool a }
struct Seq61a {}
struct Seq61b {}
struct Seq61c {}
struct Seq62a {}
union Seq62b { 1: i32 a }
struct Seq63a {}
enum Seq63b { A = 1; }
struct Seq63c {}
struct Seq64a {}
namespace rust Seq64b
struct Seq65a {}
/// one line
struct Seq65b { 1: optional bool a }
struct Seq65c {}
struct Seq66a {}
/// one line
struct Seq66b {}
struct Seq67a {}
/// one line
union Seq67b { 1: i32 a }
struct Seq67c {}
struct Seq68a {}
/// one line
enum Seq68b { A = 1; }
struct Seq69a {}
/// one line
namespace rust Seq69b
struct Seq69c {}
struct Seq70a {}
/** block
   of two lines */
struct Seq70b { 1: optional bool a }
struct Seq71a {}
/** block
   of two lines */
struct Seq71b {}
struct Seq71c {}
struct Seq72a {}
/** block
   of two lines */
union Seq72b { 1: i32 a }
struct Seq73a {}
/** block
   of two lines */
enum Seq73b { A = 1; }
struct Seq73c {}
struct Seq74a {}
/** block
   of two lines */
namespace rust Seq74b
struct Seq75a {}
// plain
struct Seq75b { 1: optional bool a }
struct Seq75c {}
struct Seq76a {}
// plain
struct Seq76b {}
struct Seq77a {}
// plain
union Seq77b { 1: i32 a }
struct Seq77c {}
struct Seq78a {}
// plain
enum Seq78b { A = 1; }
struct Seq79a {}
// plain
namespace rust Seq79b
struct Seq79c {}
struct Seq80a {}
/* plain block */
struct Seq80b { 1: optional bool a }
struct Seq81a {}
/* plain block */
struct Seq81b {}
struct Seq81c {}
struct Seq82a {}
/* plain block */
union Seq82b { 1: i32 a }
struct Seq83a {}
/* plain block */
enum Seq83b { A = 1; }
struct Seq83c {}
struct Seq84a {}
/* plain block */
namespace rust Seq84b
struct Seq85a {}
/// first
/// second
/** third */
struct Seq85b { 1: optional bool a }
struct Seq85c {}
struct Seq86a {}
/// first
/// second
/** third */
struct Seq86b {}
struct Seq87a {}
/// first
/// second
/** third */
union Seq87b { 1: i32 a }
struct Seq87c {}
struct Seq88a {}
/// first
/// second
/** third */
enum Seq88b { A = 1; }
struct Seq89a {}
/// first
/// second
/** third */
namespace rust Seq89b
struct Seq89c {}
union Seq90a { 1: i32 a }
struct Seq90b { 1: optional bool a }
union Seq91a { 1: i32 a }
struct Seq91b {}
struct Seq91c {}
union Seq92a { 1: i32 a }
union Seq92b { 1: i32 a }
union Seq93a { 1: i32 a }
enum Seq93b { A = 1; }
struct Seq93c {}
union Seq94a { 1: i32 a }
namespace rust Seq94b
union Seq95a { 1: i32 a }
/// one line
struct Seq95b { 1: optional bool a }
struct Seq95c {}
union Seq96a { 1: i32 a }
/// one line
struct Seq96b {}
union Seq97a { 1: i32 a }
/// one line
union Seq97b { 1: i32 a }
struct Seq97c {}
union Seq98a { 1: i32 a }
/// one line
enum Seq98b { A = 1; }
union Seq99a { 1: i32 a }
/// one line
namespace rust Seq99b
struct Seq99c {}
union Seq100a { 1: i32 a }
/** block
   of two lines */
struct Seq100b { 1: optional bool a }
union Seq101a { 1: i32 a }
/** block
   of two lines */
struct Seq101b {}
struct Seq101c {}
union Seq102a { 1: i32 a }
/** block
   of two lines */
union Seq102b { 1: i32 a }
union Seq103a { 1: i32 a }
/** block
   of two lines */
enum Seq103b { A = 1; }
struct Seq103c {}
union Seq104a { 1: i32 a }
/** block
   of two lines */
namespace rust Seq104b
union Seq105a { 1: i32 a }
// plain
struct Seq105b { 1: optional bool a }
struct Seq105c {}
union Seq106a { 1: i32 a }
// plain
struct Seq106b {}
union Seq107a { 1: i32 a }
// plain
union Seq107b { 1: i32 a }
struct Seq107c {}
union Seq108a { 1: i32 a }
// plain
enum Seq108b { A = 1; }
union Seq109a { 1: i32 a }
// plain
namespace rust Seq109b
struct Seq109c {}
union Seq110a { 1: i32 a }
/* plain block */
struct Seq110b { 1: optional bool a }
union Seq111a { 1: i32 a }
/* plain block */
struct Seq111b {}
struct Seq111c {}
union Seq112a { 1: i32 a }
/* plain block */
union Seq112b { 1: i32 a }
union Seq113a { 1: i32 a }
/* plain block */
enum Seq113b { A = 1; }
struct Seq113c {}
union Seq114a { 1: i32 a }
/* plain block */
namespace rust Seq114b
union Seq115a { 1: i32 a }
/// first
/// second
/** third */
struct Seq115b { 1: optional bool a }
struct Seq115c {}
union Seq116a { 1: i32 a }
/// first
/// second
/** third */
struct Seq116b {}
union Seq117a { 1: i32 a }
/// first
/// second
/** third */
union Seq117b { 1: i32 a }
struct Seq117c {}
union Seq118a { 1: i32 a }
/// first
/// second
/** third */
enum Seq118b { A = 1; }
union Seq119a { 1: i32 a }
/// first
/// second
/** third */
namespace rust Seq119b
struct Seq119c {}
enum Seq120a { A = 1; }
struct Seq120b { 1: optional bool a }
enum Seq121a { A = 1; }
struct Seq121b {}
struct Seq121c {}
enum Seq122a { A = 1; }
union Seq122b { 1: i32 a }
enum Seq123a { A = 1; }
enum Seq123b { A = 1; }
struct Seq123c {}
enum Seq124a { A = 1; }
namespace rust Seq124b
enum Seq125a { A = 1; }
/// one line
struct Seq125b { 1: optional bool a }
struct Seq125c {}
enum Seq126a { A = 1; }
/// one line
struct Seq126b {}
enum Seq127a { A = 1; }
/// one line
union Seq127b { 1: i32 a }
struct Seq127c {}
enum Seq128a { A = 1; }
/// one line
enum Seq128b { A = 1; }
enum Seq129a { A = 1; }
/// one line
namespace rust Seq129b
struct Seq129c {}
enum Seq130a { A = 1; }
/** block
   of two lines */
struct Seq130b { 1: optional bool a }
enum Seq131a { A = 1; }
/** block
   of two lines */
struct Seq131b {}
struct Seq131c {}
enum Seq132a { A = 1; }
/** block
   of two lines */
union Seq132b { 1: i32 a }
enum Seq133a { A = 1; }
/** block
   of two lines */
enum Seq133b { A = 1; }
struct Seq133c {}
enum Seq134a { A = 1; }
/** block
   of two lines */
namespace rust Seq134b
enum Seq135a { A = 1; }
// plain
struct Seq135b { 1: optional bool a }
struct Seq135c {}
enum Seq136a { A = 1; }
// plain
struct Seq136b {}
enum Seq137a { A = 1; }
// plain
union Seq137b { 1: i32 a }
struct Seq137c {}
enum Seq138a { A = 1; }
// plain
enum Seq138b { A = 1; }
enum Seq139a { A = 1; }
// plain
namespace rust Seq139b
struct Seq139c {}
enum Seq140a { A = 1; }
/* plain block */
struct Seq140b { 1: optional bool a }
enum Seq141a { A = 1; }
/* plain block */
struct Seq141b {}
struct Seq141c {}
enum Seq142a { A = 1; }
/* plain block */
union Seq142b { 1: i32 a }
enum Seq143a { A = 1; }
/* plain block */
enum Seq143b { A = 1; }
struct Seq143c {}
enum Seq144a { A = 1; }
/* plain block */
namespace rust Seq144b
enum Seq145a { A = 1; }
/// first
/// second
/** third */
struct Seq145b { 1: optional bool a }
struct Seq145c {}
enum Seq146a { A = 1; }
/// first
/// second
/** third */
struct Seq146b {}
enum Seq147a { A = 1; }
/// first
/// second
/** third */
union Seq147b { 1: i32 a }
struct Seq147c {}
enum Seq148a { A = 1; }
/// first
/// second
/** third */
enum Seq148b { A = 1; }
enum Seq149a { A = 1; }
/// first
/// second
/** third */
namespace rust Seq149b
struct Seq149c {}
namespace rust Seq150a
struct Seq150b { 1: optional bool a }
namespace rust Seq151a
struct Seq151b {}
struct Seq151c {}
namespace rust Seq152a
union Seq152b { 1: i32 a }
namespace rust Seq153a
enum Seq153b { A = 1; }
struct Seq153c {}
namespace rust Seq154a
namespace rust Seq154b
namespace rust Seq155a
/// one line
struct Seq155b { 1: optional bool a }
struct Seq155c {}
namespace rust Seq156a
/// one line
struct Seq156b {}
namespace rust Seq157a
/// one line
union Seq157b { 1: i32 a }
struct Seq157c {}
namespace rust Seq158a
/// one line
enum Seq158b { A = 1; }
namespace rust Seq159a
/// one line
namespace rust Seq159b
struct Seq159c {}
namespace rust Seq160a
/** block
   of two lines */
struct Seq160b { 1: optional bool a }
namespace rust Seq161a
/** block
   of two lines */
struct Seq161b {}
struct Seq161c {}
namespace rust Seq162a
/** block
   of two lines */
union Seq162b { 1: i32 a }
namespace rust Seq163a
/** block
   of two lines */
enum Seq163b { A = 1; }
struct Seq163c {}
namespace rust Seq164a
/** block
   of two lines */
namespace rust Seq164b
namespace rust Seq165a
// plain
struct Seq165b { 1: optional bool a }
struct Seq165c {}
namespace rust Seq166a
// plain
struct Seq166b {}
namespace rust Seq167a
// plain
union Seq167b { 1: i32 a }
struct Seq167c {}
namespace rust Seq168a
// plain
enum Seq168b { A = 1; }
namespace rust Seq169a
// plain
namespace rust Seq169b
struct Seq169c {}
namespace rust Seq170a
/* plain block */
struct Seq170b { 1: optional bool a }
namespace rust Seq171a
/* plain block */
struct Seq171b {}
struct Seq171c {}
namespace rust Seq172a
/* plain block */
union Seq172b { 1: i32 a }
namespace rust Seq173a
/* plain block */
enum Seq173b { A = 1; }
struct Seq173c {}
namespace rust Seq174a
/* plain block */
namespace rust Seq174b
namespace rust Seq175a
/// first
/// second
/** third */
struct Seq175b { 1: optional bool a }
struct Seq175c {}
namespace rust Seq176a
/// first
/// second
/** third */
struct Seq176b {}
namespace rust Seq177a
/// first
/// second
/** third */
union Seq177b { 1: i32 a }
struct Seq177c {}
namespace rust Seq178a
/// first
/// second
/** third */
enum Seq178b { A = 1; }
namespace rust Seq179a
/// first
/// second
/** third */
namespace rust Seq179b
struct Seq179c {}
struct Many40x0 {}
struct Many40x1 {}
struct Many40x2 {}
struct Many40x3 {}
struct Many40x4 {}
struct Many40x5 {}
struct Many40x6 {}
struct Many40x7 {}
struct Many40x8 {}
struct Many40x9 {}
struct Many40x10 {}
struct Many40x11 {}
struct Many40x12 {}
struct Many40x13 {}
struct Many40x14 {}
struct Many40x15 {}
struct Many40x16 {}
struct Many40x17 {}
struct Many40x18 {}
struct Many40x19 {}
struct Many40x20 {}
struct Many40x21 {}
struct Many40x22 {}
struct Many40x23 {}
struct Many40x24 {}
struct Many40x25 {}
struct Many40x26 {}
struct Many40x27 {}
struct Many40x28 {}
struct Many40x29 {}
struct Many40x30 {}
struct Many40x31 {}
struct Many40x32 {}
struct Many40x33 {}
struct Many40x34 {}
struct Many40x35 {}
struct Many40x36 {}
struct Many40x37 {}
struct Many40x38 {}
struct Many40x39 {}
struct Many100x0 {}
struct Many100x1 {}
struct Many100x2 {}
struct Many100x3 {}
struct Many100x4 {}
struct Many100x5 {}
struct Many100x6 {}
struct Many100x7 {}
struct Many100x8 {}
struct Many100x9 {}
struct Many100x10 {}
struct Many100x11 {}
struct Many100x12 {}
struct Many100x13 {}
struct Many100x14 {}
struct Many100x15 {}
struct Many100x16 {}
struct Many100x17 {}
struct Many100x18 {}
struct Many100x19 {}
struct Many100x20 {}
struct Many100x21 {}
struct Many100x22 {}
struct Many100x23 {}
struct Many100x24 {}
struct Many100x25 {}
struct Many100x26 {}
struct Many100x27 {}
struct Many100x28 {}
struct Many100x29 {}
struct Many100x30 {}
struct Many100x31 {}
struct Many100x32 {}
struct Many100x33 {}
struct Many100x34 {}
struct Many100x35 {}
struct Many100x36 {}
struct Many100x37 {}
struct Many100x38 {}
struct Many100x39 {}
struct Many100x40 {}
struct Many100x41 {}
struct Many100x42 {}
struct Many100x43 {}
struct Many100x44 {}
struct Many100x45 {}
struct Many100x46 {}
struct Many100x47 {}
struct Many100x48 {}
struct Many100x49 {}
struct Many100x50 {}
struct Many100x51 {}
struct Many100x52 {}
struct Many100x53 {}
struct Many100x54 {}
struct Many100x55 {}
struct Many100x56 {}
struct Many100x57 {}
struct Many100x58 {}
struct Many100x59 {}
struct Many100x60 {}
struct Many100x61 {}
struct Many100x62 {}
struct Many100x63 {}
struct Many100x64 {}
struct Many100x65 {}
struct Many100x66 {}
struct Many100x67 {}
struct Many100x68 {}
struct Many100x69 {}
struct Many100x70 {}
struct Many100x71 {}
struct Many100x72 {}
struct Many100x73 {}
struct Many100x74 {}
struct Many100x75 {}
struct Many100x76 {}
struct Many100x77 {}
struct Many100x78 {}
struct Many100x79 {}
struct Many100x80 {}
struct Many100x81 {}
struct Many100x82 {}
struct Many100x83 {}
struct Many100x84 {}
struct Many100x85 {}
struct Many100x86 {}
struct Many100x87 {}
struct Many100x88 {}
struct Many100x89 {}
struct Many100x90 {}
struct Many100x91 {}
struct Many100x92 {}
struct Many100x93 {}
struct Many100x94 {}
struct Many100x95 {}
struct Many100x96 {}
struct Many100x97 {}
struct Many100x98 {}
struct Many100x99 {}

"##;
fn subjects0(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call0::Tone>("Tone", idl.def("Tone"), "enum"),
        vt::<call0::Leaf>("Leaf", idl.def("Leaf"), "struct"),
        vt::<call0::Fork>("Fork", idl.def("Fork"), "union"),
        vt::<call1::Field0>("Field0", idl.def("Field0"), "struct"),
        vt::<call1::Field1>("Field1", idl.def("Field1"), "struct"),
        vt::<call1::Field2>("Field2", idl.def("Field2"), "struct"),
        vt::<call1::Field3>("Field3", idl.def("Field3"), "struct"),
        vt::<call1::Field4>("Field4", idl.def("Field4"), "struct"),
        vt::<call1::Field5>("Field5", idl.def("Field5"), "struct"),
        vt::<call1::Field6>("Field6", idl.def("Field6"), "struct"),
        vt::<call1::Field7>("Field7", idl.def("Field7"), "struct"),
        vt::<call1::Field8>("Field8", idl.def("Field8"), "struct"),
        vt::<call1::Field9>("Field9", idl.def("Field9"), "struct"),
        vt::<call2::Field10>("Field10", idl.def("Field10"), "struct"),
        vt::<call2::Field11>("Field11", idl.def("Field11"), "struct"),
        vt::<call2::Field12>("Field12", idl.def("Field12"), "struct"),
        vt::<call2::Field13>("Field13", idl.def("Field13"), "struct"),
        vt::<call2::Field14>("Field14", idl.def("Field14"), "struct"),
        vt::<call2::Field15>("Field15", idl.def("Field15"), "struct"),
        vt::<call2::Field16>("Field16", idl.def("Field16"), "struct"),
        vt::<call2::Field17>("Field17", idl.def("Field17"), "struct"),
        vt::<call2::Field18>("Field18", idl.def("Field18"), "struct"),
        vt::<call2::Field19>("Field19", idl.def("Field19"), "struct"),
        vt::<call3::Field20>("Field20", idl.def("Field20"), "struct"),
        vt::<call3::Field21>("Field21", idl.def("Field21"), "struct"),
        vt::<call3::Field22>("Field22", idl.def("Field22"), "struct"),
        vt::<call3::Field23>("Field23", idl.def("Field23"), "struct"),
        vt::<call3::Field24>("Field24", idl.def("Field24"), "struct"),
        vt::<call3::Field25>("Field25", idl.def("Field25"), "struct"),
        vt::<call3::Field26>("Field26", idl.def("Field26"), "struct"),
        vt::<call3::Field27>("Field27", idl.def("Field27"), "struct"),
        vt::<call3::Field28>("Field28", idl.def("Field28"), "struct"),
        vt::<call3::Field29>("Field29", idl.def("Field29"), "struct"),
        vt::<call4::Field30>("Field30", idl.def("Field30"), "struct"),
        vt::<call4::Field31>("Field31", idl.def("Field31"), "struct"),
        vt::<call4::Field32>("Field32", idl.def("Field32"), "struct"),
        vt::<call4::Field33>("Field33", idl.def("Field33"), "struct"),
        vt::<call4::Field34>("Field34", idl.def("Field34"), "struct"),
        vt::<call4::Field35>("Field35", idl.def("Field35"), "struct"),
        vt::<call4::Field36>("Field36", idl.def("Field36"), "struct"),
    ]
}
fn subjects1(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call4::Field37>("Field37", idl.def("Field37"), "struct"),
        vt::<call4::Field38>("Field38", idl.def("Field38"), "struct"),
        vt::<call4::Field39>("Field39", idl.def("Field39"), "struct"),
        vt::<call5::Field40>("Field40", idl.def("Field40"), "struct"),
        vt::<call5::Field41>("Field41", idl.def("Field41"), "struct"),
        vt::<call5::Field42>("Field42", idl.def("Field42"), "struct"),
        vt::<call5::Field43>("Field43", idl.def("Field43"), "struct"),
        vt::<call5::Field44>("Field44", idl.def("Field44"), "struct"),
        vt::<call5::Field45>("Field45", idl.def("Field45"), "struct"),
        vt::<call6::Pair0>("Pair0", idl.def("Pair0"), "struct"),
        vt::<call6::Pair1>("Pair1", idl.def("Pair1"), "struct"),
        vt::<call6::Pair2>("Pair2", idl.def("Pair2"), "struct"),
        vt::<call6::Pair3>("Pair3", idl.def("Pair3"), "struct"),
        vt::<call6::Pair4>("Pair4", idl.def("Pair4"), "struct"),
        vt::<call6::Pair5>("Pair5", idl.def("Pair5"), "struct"),
        vt::<call6::Pair6>("Pair6", idl.def("Pair6"), "struct"),
        vt::<call6::Pair7>("Pair7", idl.def("Pair7"), "struct"),
        vt::<call6::Pair8>("Pair8", idl.def("Pair8"), "struct"),
        vt::<call6::Pair9>("Pair9", idl.def("Pair9"), "struct"),
        vt::<call7::Pair10>("Pair10", idl.def("Pair10"), "struct"),
        vt::<call7::Pair11>("Pair11", idl.def("Pair11"), "struct"),
        vt::<call7::Pair12>("Pair12", idl.def("Pair12"), "struct"),
        vt::<call7::Pair13>("Pair13", idl.def("Pair13"), "struct"),
        vt::<call7::Pair14>("Pair14", idl.def("Pair14"), "struct"),
        vt::<call7::Pair15>("Pair15", idl.def("Pair15"), "struct"),
        vt::<call7::Pair16>("Pair16", idl.def("Pair16"), "struct"),
        vt::<call7::Pair17>("Pair17", idl.def("Pair17"), "struct"),
        vt::<call7::Pair18>("Pair18", idl.def("Pair18"), "struct"),
        vt::<call7::Pair19>("Pair19", idl.def("Pair19"), "struct"),
        vt::<call8::Pair20>("Pair20", idl.def("Pair20"), "struct"),
        vt::<call8::Pair21>("Pair21", idl.def("Pair21"), "struct"),
        vt::<call8::Pair22>("Pair22", idl.def("Pair22"), "struct"),
        vt::<call8::Pair23>("Pair23", idl.def("Pair23"), "struct"),
        vt::<call8::Pair24>("Pair24", idl.def("Pair24"), "struct"),
        vt::<call8::Pair25>("Pair25", idl.def("Pair25"), "struct"),
        vt::<call8::Pair26>("Pair26", idl.def("Pair26"), "struct"),
        vt::<call8::Pair27>("Pair27", idl.def("Pair27"), "struct"),
        vt::<call8::Pair28>("Pair28", idl.def("Pair28"), "struct"),
        vt::<call8::Pair29>("Pair29", idl.def("Pair29"), "struct"),
        vt::<call9::Pair30>("Pair30", idl.def("Pair30"), "struct"),
    ]
}
fn subjects2(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call9::Pair31>("Pair31", idl.def("Pair31"), "struct"),
        vt::<call9::Pair32>("Pair32", idl.def("Pair32"), "struct"),
        vt::<call9::Pair33>("Pair33", idl.def("Pair33"), "struct"),
        vt::<call9::Pair34>("Pair34", idl.def("Pair34"), "struct"),
        vt::<call9::Pair35>("Pair35", idl.def("Pair35"), "struct"),
        vt::<call9::Pair36>("Pair36", idl.def("Pair36"), "struct"),
        vt::<call9::Pair37>("Pair37", idl.def("Pair37"), "struct"),
        vt::<call9::Pair38>("Pair38", idl.def("Pair38"), "struct"),
        vt::<call9::Pair39>("Pair39", idl.def("Pair39"), "struct"),
        vt::<call10::Pair40>("Pair40", idl.def("Pair40"), "struct"),
        vt::<call10::Pair41>("Pair41", idl.def("Pair41"), "struct"),
        vt::<call10::Pair42>("Pair42", idl.def("Pair42"), "struct"),
        vt::<call10::Pair43>("Pair43", idl.def("Pair43"), "struct"),
        vt::<call10::Pair44>("Pair44", idl.def("Pair44"), "struct"),
        vt::<call10::Pair45>("Pair45", idl.def("Pair45"), "struct"),
        vt::<call10::Pair46>("Pair46", idl.def("Pair46"), "struct"),
        vt::<call10::Pair47>("Pair47", idl.def("Pair47"), "struct"),
        vt::<call10::Pair48>("Pair48", idl.def("Pair48"), "struct"),
        vt::<call10::Pair49>("Pair49", idl.def("Pair49"), "struct"),
        vt::<call11::Pair50>("Pair50", idl.def("Pair50"), "struct"),
        vt::<call11::Pair51>("Pair51", idl.def("Pair51"), "struct"),
        vt::<call11::Pair52>("Pair52", idl.def("Pair52"), "struct"),
        vt::<call11::Pair53>("Pair53", idl.def("Pair53"), "struct"),
        vt::<call11::Pair54>("Pair54", idl.def("Pair54"), "struct"),
        vt::<call11::Pair55>("Pair55", idl.def("Pair55"), "struct"),
        vt::<call11::Pair56>("Pair56", idl.def("Pair56"), "struct"),
        vt::<call11::Pair57>("Pair57", idl.def("Pair57"), "struct"),
        vt::<call11::Pair58>("Pair58", idl.def("Pair58"), "struct"),
        vt::<call11::Pair59>("Pair59", idl.def("Pair59"), "struct"),
        vt::<call12::Pair60>("Pair60", idl.def("Pair60"), "struct"),
        vt::<call12::Pair61>("Pair61", idl.def("Pair61"), "struct"),
        vt::<call12::Pair62>("Pair62", idl.def("Pair62"), "struct"),
        vt::<call12::Pair63>("Pair63", idl.def("Pair63"), "struct"),
        vt::<call12::Pair64>("Pair64", idl.def("Pair64"), "struct"),
        vt::<call12::Pair65>("Pair65", idl.def("Pair65"), "struct"),
        vt::<call12::Pair66>("Pair66", idl.def("Pair66"), "struct"),
        vt::<call12::Pair67>("Pair67", idl.def("Pair67"), "struct"),
        vt::<call12::Pair68>("Pair68", idl.def("Pair68"), "struct"),
        vt::<call12::Pair69>("Pair69", idl.def("Pair69"), "struct"),
        vt::<call13::Pair70>("Pair70", idl.def("Pair70"), "struct"),
    ]
}
fn subjects3(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call13::Pair71>("Pair71", idl.def("Pair71"), "struct"),
        vt::<call13::Pair72>("Pair72", idl.def("Pair72"), "struct"),
        vt::<call13::Pair73>("Pair73", idl.def("Pair73"), "struct"),
        vt::<call13::Pair74>("Pair74", idl.def("Pair74"), "struct"),
        vt::<call13::Pair75>("Pair75", idl.def("Pair75"), "struct"),
        vt::<call13::Pair76>("Pair76", idl.def("Pair76"), "struct"),
        vt::<call13::Pair77>("Pair77", idl.def("Pair77"), "struct"),
        vt::<call13::Pair78>("Pair78", idl.def("Pair78"), "struct"),
        vt::<call13::Pair79>("Pair79", idl.def("Pair79"), "struct"),
        vt::<call14::Pair80>("Pair80", idl.def("Pair80"), "struct"),
        vt::<call14::Pair81>("Pair81", idl.def("Pair81"), "struct"),
        vt::<call14::Pair82>("Pair82", idl.def("Pair82"), "struct"),
        vt::<call14::Pair83>("Pair83", idl.def("Pair83"), "struct"),
        vt::<call14::Pair84>("Pair84", idl.def("Pair84"), "struct"),
        vt::<call14::Pair85>("Pair85", idl.def("Pair85"), "struct"),
        vt::<call14::Pair86>("Pair86", idl.def("Pair86"), "struct"),
        vt::<call14::Pair87>("Pair87", idl.def("Pair87"), "struct"),
        vt::<call14::Pair88>("Pair88", idl.def("Pair88"), "struct"),
        vt::<call14::Pair89>("Pair89", idl.def("Pair89"), "struct"),
        vt::<call15::Pair90>("Pair90", idl.def("Pair90"), "struct"),
        vt::<call15::Pair91>("Pair91", idl.def("Pair91"), "struct"),
        vt::<call15::Pair92>("Pair92", idl.def("Pair92"), "struct"),
        vt::<call15::Pair93>("Pair93", idl.def("Pair93"), "struct"),
        vt::<call15::Pair94>("Pair94", idl.def("Pair94"), "struct"),
        vt::<call15::Pair95>("Pair95", idl.def("Pair95"), "struct"),
        vt::<call16::Member0>("Member0", idl.def("Member0"), "union"),
        vt::<call16::Member1>("Member1", idl.def("Member1"), "union"),
        vt::<call16::Member2>("Member2", idl.def("Member2"), "union"),
        vt::<call16::Member3>("Member3", idl.def("Member3"), "union"),
        vt::<call16::Member4>("Member4", idl.def("Member4"), "union"),
        vt::<call16::Member5>("Member5", idl.def("Member5"), "union"),
        vt::<call16::Member6>("Member6", idl.def("Member6"), "union"),
        vt::<call16::Member7>("Member7", idl.def("Member7"), "union"),
        vt::<call16::Member8>("Member8", idl.def("Member8"), "union"),
        vt::<call16::Member9>("Member9", idl.def("Member9"), "union"),
        vt::<call17::Member10>("Member10", idl.def("Member10"), "union"),
        vt::<call17::Member11>("Member11", idl.def("Member11"), "union"),
        vt::<call17::Member12>("Member12", idl.def("Member12"), "union"),
        vt::<call17::Member13>("Member13", idl.def("Member13"), "union"),
        vt::<call17::Lone0>("Lone0", idl.def("Lone0"), "union"),
    ]
}
fn subjects4(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call17::Lone1>("Lone1", idl.def("Lone1"), "union"),
        vt::<call17::Lone2>("Lone2", idl.def("Lone2"), "union"),
        vt::<call17::Lone3>("Lone3", idl.def("Lone3"), "union"),
        vt::<call17::Lone4>("Lone4", idl.def("Lone4"), "union"),
        vt::<call17::Lone5>("Lone5", idl.def("Lone5"), "union"),
        vt::<call18::Lone6>("Lone6", idl.def("Lone6"), "union"),
        vt::<call18::Lone7>("Lone7", idl.def("Lone7"), "union"),
        vt::<call18::Lone8>("Lone8", idl.def("Lone8"), "union"),
        vt::<call18::Lone9>("Lone9", idl.def("Lone9"), "union"),
        vt::<call18::Lone10>("Lone10", idl.def("Lone10"), "union"),
        vt::<call18::Lone11>("Lone11", idl.def("Lone11"), "union"),
        vt::<call19::Consts0>("Consts0", idl.def("Consts0"), "enum"),
        vt::<call19::Consts1>("Consts1", idl.def("Consts1"), "enum"),
        vt::<call19::Consts2>("Consts2", idl.def("Consts2"), "enum"),
        vt::<call19::Consts3>("Consts3", idl.def("Consts3"), "enum"),
        vt::<call19::Consts4>("Consts4", idl.def("Consts4"), "enum"),
        vt::<call19::Consts5>("Consts5", idl.def("Consts5"), "enum"),
        vt::<call19::NoConsts>("NoConsts", idl.def("NoConsts"), "enum"),
        vt::<call20::RequiredNames0>("RequiredNames0", idl.def("RequiredNames0"), "struct"),
        vt::<call20::OptionalNames0>("OptionalNames0", idl.def("OptionalNames0"), "struct"),
        vt::<call20::AnyNames0>("AnyNames0", idl.def("AnyNames0"), "union"),
        vt::<call20::RequiredNames13>("RequiredNames13", idl.def("RequiredNames13"), "struct"),
        vt::<call20::OptionalNames13>("OptionalNames13", idl.def("OptionalNames13"), "struct"),
        vt::<call20::AnyNames13>("AnyNames13", idl.def("AnyNames13"), "union"),
        vt::<call20::RequiredNames26>("RequiredNames26", idl.def("RequiredNames26"), "struct"),
        vt::<call20::OptionalNames26>("OptionalNames26", idl.def("OptionalNames26"), "struct"),
        vt::<call20::AnyNames26>("AnyNames26", idl.def("AnyNames26"), "union"),
        vt::<call20::RequiredNames39>("RequiredNames39", idl.def("RequiredNames39"), "struct"),
        vt::<call21::OptionalNames39>("OptionalNames39", idl.def("OptionalNames39"), "struct"),
        vt::<call21::AnyNames39>("AnyNames39", idl.def("AnyNames39"), "union"),
        vt::<call21::Result>("Result", idl.def("Result"), "struct"),
        vt::<call21::Error>("Error", idl.def("Error"), "struct"),
        vt::<call21::ThriftError>("ThriftError", idl.def("ThriftError"), "struct"),
        vt::<call21::CompactThriftInput>("CompactThriftInput", idl.def("CompactThriftInput"), "struct"),
        vt::<call21::FieldName>("FieldName", idl.def("FieldName"), "struct"),
        vt::<call21::lower>("lower", idl.def("lower"), "struct"),
        vt::<call21::T>("T", idl.def("T"), "struct"),
        vt::<call21::Rc>("Rc", idl.def("Rc"), "struct"),
        vt::<call22::Arc>("Arc", idl.def("Arc"), "struct"),
        vt::<call22::Read>("Read", idl.def("Read"), "struct"),
    ]
}
fn subjects5(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call22::Cow>("Cow", idl.def("Cow"), "struct"),
        vt::<call23::Seq0b>("Seq0b", idl.def("Seq0b"), "struct"),
        vt::<call24::Seq1b>("Seq1b", idl.def("Seq1b"), "struct"),
        vt::<call24::Seq1c>("Seq1c", idl.def("Seq1c"), "struct"),
        vt::<call25::Seq2b>("Seq2b", idl.def("Seq2b"), "union"),
        vt::<call26::Seq3b>("Seq3b", idl.def("Seq3b"), "enum"),
        vt::<call26::Seq3c>("Seq3c", idl.def("Seq3c"), "struct"),
        vt::<call28::Seq5b>("Seq5b", idl.def("Seq5b"), "struct"),
        vt::<call28::Seq5c>("Seq5c", idl.def("Seq5c"), "struct"),
        vt::<call29::Seq6b>("Seq6b", idl.def("Seq6b"), "struct"),
        vt::<call30::Seq7b>("Seq7b", idl.def("Seq7b"), "union"),
        vt::<call30::Seq7c>("Seq7c", idl.def("Seq7c"), "struct"),
        vt::<call31::Seq8b>("Seq8b", idl.def("Seq8b"), "enum"),
        vt::<call32::Seq9c>("Seq9c", idl.def("Seq9c"), "struct"),
        vt::<call33::Seq10b>("Seq10b", idl.def("Seq10b"), "struct"),
        vt::<call34::Seq11b>("Seq11b", idl.def("Seq11b"), "struct"),
        vt::<call34::Seq11c>("Seq11c", idl.def("Seq11c"), "struct"),
        vt::<call35::Seq12b>("Seq12b", idl.def("Seq12b"), "union"),
        vt::<call36::Seq13b>("Seq13b", idl.def("Seq13b"), "enum"),
        vt::<call36::Seq13c>("Seq13c", idl.def("Seq13c"), "struct"),
        vt::<call38::Seq15b>("Seq15b", idl.def("Seq15b"), "struct"),
        vt::<call38::Seq15c>("Seq15c", idl.def("Seq15c"), "struct"),
        vt::<call39::Seq16b>("Seq16b", idl.def("Seq16b"), "struct"),
        vt::<call40::Seq17b>("Seq17b", idl.def("Seq17b"), "union"),
        vt::<call40::Seq17c>("Seq17c", idl.def("Seq17c"), "struct"),
        vt::<call41::Seq18b>("Seq18b", idl.def("Seq18b"), "enum"),
        vt::<call42::Seq19c>("Seq19c", idl.def("Seq19c"), "struct"),
        vt::<call43::Seq20b>("Seq20b", idl.def("Seq20b"), "struct"),
        vt::<call44::Seq21b>("Seq21b", idl.def("Seq21b"), "struct"),
        vt::<call44::Seq21c>("Seq21c", idl.def("Seq21c"), "struct"),
        vt::<call45::Seq22b>("Seq22b", idl.def("Seq22b"), "union"),
        vt::<call46::Seq23b>("Seq23b", idl.def("Seq23b"), "enum"),
        vt::<call46::Seq23c>("Seq23c", idl.def("Seq23c"), "struct"),
        vt::<call48::Seq25b>("Seq25b", idl.def("Seq25b"), "struct"),
        vt::<call48::Seq25c>("Seq25c", idl.def("Seq25c"), "struct"),
        vt::<call49::Seq26b>("Seq26b", idl.def("Seq26b"), "struct"),
        vt::<call50::Seq27b>("Seq27b", idl.def("Seq27b"), "union"),
        vt::<call50::Seq27c>("Seq27c", idl.def("Seq27c"), "struct"),
        vt::<call51::Seq28b>("Seq28b", idl.def("Seq28b"), "enum"),
        vt::<call52::Seq29c>("Seq29c", idl.def("Seq29c"), "struct"),
    ]
}
fn subjects6(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call53::Seq30a>("Seq30a", idl.def("Seq30a"), "struct"),
        vt::<call53::Seq30b>("Seq30b", idl.def("Seq30b"), "struct"),
        vt::<call54::Seq31a>("Seq31a", idl.def("Seq31a"), "struct"),
        vt::<call54::Seq31b>("Seq31b", idl.def("Seq31b"), "struct"),
        vt::<call54::Seq31c>("Seq31c", idl.def("Seq31c"), "struct"),
        vt::<call55::Seq32a>("Seq32a", idl.def("Seq32a"), "struct"),
        vt::<call55::Seq32b>("Seq32b", idl.def("Seq32b"), "union"),
        vt::<call56::Seq33a>("Seq33a", idl.def("Seq33a"), "struct"),
        vt::<call56::Seq33b>("Seq33b", idl.def("Seq33b"), "enum"),
        vt::<call56::Seq33c>("Seq33c", idl.def("Seq33c"), "struct"),
        vt::<call57::Seq34a>("Seq34a", idl.def("Seq34a"), "struct"),
        vt::<call58::Seq35a>("Seq35a", idl.def("Seq35a"), "struct"),
        vt::<call58::Seq35b>("Seq35b", idl.def("Seq35b"), "struct"),
        vt::<call58::Seq35c>("Seq35c", idl.def("Seq35c"), "struct"),
        vt::<call59::Seq36a>("Seq36a", idl.def("Seq36a"), "struct"),
        vt::<call59::Seq36b>("Seq36b", idl.def("Seq36b"), "struct"),
        vt::<call60::Seq37a>("Seq37a", idl.def("Seq37a"), "struct"),
        vt::<call60::Seq37b>("Seq37b", idl.def("Seq37b"), "union"),
        vt::<call60::Seq37c>("Seq37c", idl.def("Seq37c"), "struct"),
        vt::<call61::Seq38a>("Seq38a", idl.def("Seq38a"), "struct"),
        vt::<call61::Seq38b>("Seq38b", idl.def("Seq38b"), "enum"),
        vt::<call62::Seq39a>("Seq39a", idl.def("Seq39a"), "struct"),
        vt::<call62::Seq39c>("Seq39c", idl.def("Seq39c"), "struct"),
        vt::<call63::Seq40a>("Seq40a", idl.def("Seq40a"), "struct"),
        vt::<call63::Seq40b>("Seq40b", idl.def("Seq40b"), "struct"),
        vt::<call64::Seq41a>("Seq41a", idl.def("Seq41a"), "struct"),
        vt::<call64::Seq41b>("Seq41b", idl.def("Seq41b"), "struct"),
        vt::<call64::Seq41c>("Seq41c", idl.def("Seq41c"), "struct"),
        vt::<call65::Seq42a>("Seq42a", idl.def("Seq42a"), "struct"),
        vt::<call65::Seq42b>("Seq42b", idl.def("Seq42b"), "union"),
        vt::<call66::Seq43a>("Seq43a", idl.def("Seq43a"), "struct"),
        vt::<call66::Seq43b>("Seq43b", idl.def("Seq43b"), "enum"),
        vt::<call66::Seq43c>("Seq43c", idl.def("Seq43c"), "struct"),
        vt::<call67::Seq44a>("Seq44a", idl.def("Seq44a"), "struct"),
        vt::<call68::Seq45a>("Seq45a", idl.def("Seq45a"), "struct"),
        vt::<call68::Seq45b>("Seq45b", idl.def("Seq45b"), "struct"),
        vt::<call68::Seq45c>("Seq45c", idl.def("Seq45c"), "struct"),
        vt::<call69::Seq46a>("Seq46a", idl.def("Seq46a"), "struct"),
        vt::<call69::Seq46b>("Seq46b", idl.def("Seq46b"), "struct"),
        vt::<call70::Seq47a>("Seq47a", idl.def("Seq47a"), "struct"),
    ]
}
fn subjects7(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call70::Seq47b>("Seq47b", idl.def("Seq47b"), "union"),
        vt::<call70::Seq47c>("Seq47c", idl.def("Seq47c"), "struct"),
        vt::<call71::Seq48a>("Seq48a", idl.def("Seq48a"), "struct"),
        vt::<call71::Seq48b>("Seq48b", idl.def("Seq48b"), "enum"),
        vt::<call72::Seq49a>("Seq49a", idl.def("Seq49a"), "struct"),
        vt::<call72::Seq49c>("Seq49c", idl.def("Seq49c"), "struct"),
        vt::<call73::Seq50a>("Seq50a", idl.def("Seq50a"), "struct"),
        vt::<call73::Seq50b>("Seq50b", idl.def("Seq50b"), "struct"),
        vt::<call74::Seq51a>("Seq51a", idl.def("Seq51a"), "struct"),
        vt::<call74::Seq51b>("Seq51b", idl.def("Seq51b"), "struct"),
        vt::<call74::Seq51c>("Seq51c", idl.def("Seq51c"), "struct"),
        vt::<call75::Seq52a>("Seq52a", idl.def("Seq52a"), "struct"),
        vt::<call75::Seq52b>("Seq52b", idl.def("Seq52b"), "union"),
        vt::<call76::Seq53a>("Seq53a", idl.def("Seq53a"), "struct"),
        vt::<call76::Seq53b>("Seq53b", idl.def("Seq53b"), "enum"),
        vt::<call76::Seq53c>("Seq53c", idl.def("Seq53c"), "struct"),
        vt::<call77::Seq54a>("Seq54a", idl.def("Seq54a"), "struct"),
        vt::<call78::Seq55a>("Seq55a", idl.def("Seq55a"), "struct"),
        vt::<call78::Seq55b>("Seq55b", idl.def("Seq55b"), "struct"),
        vt::<call78::Seq55c>("Seq55c", idl.def("Seq55c"), "struct"),
        vt::<call79::Seq56a>("Seq56a", idl.def("Seq56a"), "struct"),
        vt::<call79::Seq56b>("Seq56b", idl.def("Seq56b"), "struct"),
        vt::<call80::Seq57a>("Seq57a", idl.def("Seq57a"), "struct"),
        vt::<call80::Seq57b>("Seq57b", idl.def("Seq57b"), "union"),
        vt::<call80::Seq57c>("Seq57c", idl.def("Seq57c"), "struct"),
        vt::<call81::Seq58a>("Seq58a", idl.def("Seq58a"), "struct"),
        vt::<call81::Seq58b>("Seq58b", idl.def("Seq58b"), "enum"),
        vt::<call82::Seq59a>("Seq59a", idl.def("Seq59a"), "struct"),
        vt::<call82::Seq59c>("Seq59c", idl.def("Seq59c"), "struct"),
        vt::<call83::Seq60a>("Seq60a", idl.def("Seq60a"), "struct"),
        vt::<call83::Seq60b>("Seq60b", idl.def("Seq60b"), "struct"),
        vt::<call84::Seq61a>("Seq61a", idl.def("Seq61a"), "struct"),
        vt::<call84::Seq61b>("Seq61b", idl.def("Seq61b"), "struct"),
        vt::<call84::Seq61c>("Seq61c", idl.def("Seq61c"), "struct"),
        vt::<call85::Seq62a>("Seq62a", idl.def("Seq62a"), "struct"),
        vt::<call85::Seq62b>("Seq62b", idl.def("Seq62b"), "union"),
        vt::<call86::Seq63a>("Seq63a", idl.def("Seq63a"), "struct"),
        vt::<call86::Seq63b>("Seq63b", idl.def("Seq63b"), "enum"),
        vt::<call86::Seq63c>("Seq63c", idl.def("Seq63c"), "struct"),
        vt::<call87::Seq64a>("Seq64a", idl.def("Seq64a"), "struct"),
    ]
}
fn subjects8(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call88::Seq65a>("Seq65a", idl.def("Seq65a"), "struct"),
        vt::<call88::Seq65b>("Seq65b", idl.def("Seq65b"), "struct"),
        vt::<call88::Seq65c>("Seq65c", idl.def("Seq65c"), "struct"),
        vt::<call89::Seq66a>("Seq66a", idl.def("Seq66a"), "struct"),
        vt::<call89::Seq66b>("Seq66b", idl.def("Seq66b"), "struct"),
        vt::<call90::Seq67a>("Seq67a", idl.def("Seq67a"), "struct"),
        vt::<call90::Seq67b>("Seq67b", idl.def("Seq67b"), "union"),
        vt::<call90::Seq67c>("Seq67c", idl.def("Seq67c"), "struct"),
        vt::<call91::Seq68a>("Seq68a", idl.def("Seq68a"), "struct"),
        vt::<call91::Seq68b>("Seq68b", idl.def("Seq68b"), "enum"),
        vt::<call92::Seq69a>("Seq69a", idl.def("Seq69a"), "struct"),
        vt::<call92::Seq69c>("Seq69c", idl.def("Seq69c"), "struct"),
        vt::<call93::Seq70a>("Seq70a", idl.def("Seq70a"), "struct"),
        vt::<call93::Seq70b>("Seq70b", idl.def("Seq70b"), "struct"),
        vt::<call94::Seq71a>("Seq71a", idl.def("Seq71a"), "struct"),
        vt::<call94::Seq71b>("Seq71b", idl.def("Seq71b"), "struct"),
        vt::<call94::Seq71c>("Seq71c", idl.def("Seq71c"), "struct"),
        vt::<call95::Seq72a>("Seq72a", idl.def("Seq72a"), "struct"),
        vt::<call95::Seq72b>("Seq72b", idl.def("Seq72b"), "union"),
        vt::<call96::Seq73a>("Seq73a", idl.def("Seq73a"), "struct"),
        vt::<call96::Seq73b>("Seq73b", idl.def("Seq73b"), "enum"),
        vt::<call96::Seq73c>("Seq73c", idl.def("Seq73c"), "struct"),
        vt::<call97::Seq74a>("Seq74a", idl.def("Seq74a"), "struct"),
        vt::<call98::Seq75a>("Seq75a", idl.def("Seq75a"), "struct"),
        vt::<call98::Seq75b>("Seq75b", idl.def("Seq75b"), "struct"),
        vt::<call98::Seq75c>("Seq75c", idl.def("Seq75c"), "struct"),
        vt::<call99::Seq76a>("Seq76a", idl.def("Seq76a"), "struct"),
        vt::<call99::Seq76b>("Seq76b", idl.def("Seq76b"), "struct"),
        vt::<call100::Seq77a>("Seq77a", idl.def("Seq77a"), "struct"),
        vt::<call100::Seq77b>("Seq77b", idl.def("Seq77b"), "union"),
        vt::<call100::Seq77c>("Seq77c", idl.def("Seq77c"), "struct"),
        vt::<call101::Seq78a>("Seq78a", idl.def("Seq78a"), "struct"),
        vt::<call101::Seq78b>("Seq78b", idl.def("Seq78b"), "enum"),
        vt::<call102::Seq79a>("Seq79a", idl.def("Seq79a"), "struct"),
        vt::<call102::Seq79c>("Seq79c", idl.def("Seq79c"), "struct"),
        vt::<call103::Seq80a>("Seq80a", idl.def("Seq80a"), "struct"),
        vt::<call103::Seq80b>("Seq80b", idl.def("Seq80b"), "struct"),
        vt::<call104::Seq81a>("Seq81a", idl.def("Seq81a"), "struct"),
        vt::<call104::Seq81b>("Seq81b", idl.def("Seq81b"), "struct"),
        vt::<call104::Seq81c>("Seq81c", idl.def("Seq81c"), "struct"),
    ]
}
fn subjects9(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call105::Seq82a>("Seq82a", idl.def("Seq82a"), "struct"),
        vt::<call105::Seq82b>("Seq82b", idl.def("Seq82b"), "union"),
        vt::<call106::Seq83a>("Seq83a", idl.def("Seq83a"), "struct"),
        vt::<call106::Seq83b>("Seq83b", idl.def("Seq83b"), "enum"),
        vt::<call106::Seq83c>("Seq83c", idl.def("Seq83c"), "struct"),
        vt::<call107::Seq84a>("Seq84a", idl.def("Seq84a"), "struct"),
        vt::<call108::Seq85a>("Seq85a", idl.def("Seq85a"), "struct"),
        vt::<call108::Seq85b>("Seq85b", idl.def("Seq85b"), "struct"),
        vt::<call108::Seq85c>("Seq85c", idl.def("Seq85c"), "struct"),
        vt::<call109::Seq86a>("Seq86a", idl.def("Seq86a"), "struct"),
        vt::<call109::Seq86b>("Seq86b", idl.def("Seq86b"), "struct"),
        vt::<call110::Seq87a>("Seq87a", idl.def("Seq87a"), "struct"),
        vt::<call110::Seq87b>("Seq87b", idl.def("Seq87b"), "union"),
        vt::<call110::Seq87c>("Seq87c", idl.def("Seq87c"), "struct"),
        vt::<call111::Seq88a>("Seq88a", idl.def("Seq88a"), "struct"),
        vt::<call111::Seq88b>("Seq88b", idl.def("Seq88b"), "enum"),
        vt::<call112::Seq89a>("Seq89a", idl.def("Seq89a"), "struct"),
        vt::<call112::Seq89c>("Seq89c", idl.def("Seq89c"), "struct"),
        vt::<call113::Seq90a>("Seq90a", idl.def("Seq90a"), "union"),
        vt::<call113::Seq90b>("Seq90b", idl.def("Seq90b"), "struct"),
        vt::<call114::Seq91a>("Seq91a", idl.def("Seq91a"), "union"),
        vt::<call114::Seq91b>("Seq91b", idl.def("Seq91b"), "struct"),
        vt::<call114::Seq91c>("Seq91c", idl.def("Seq91c"), "struct"),
        vt::<call115::Seq92a>("Seq92a", idl.def("Seq92a"), "union"),
        vt::<call115::Seq92b>("Seq92b", idl.def("Seq92b"), "union"),
        vt::<call116::Seq93a>("Seq93a", idl.def("Seq93a"), "union"),
        vt::<call116::Seq93b>("Seq93b", idl.def("Seq93b"), "enum"),
        vt::<call116::Seq93c>("Seq93c", idl.def("Seq93c"), "struct"),
        vt::<call117::Seq94a>("Seq94a", idl.def("Seq94a"), "union"),
        vt::<call118::Seq95a>("Seq95a", idl.def("Seq95a"), "union"),
        vt::<call118::Seq95b>("Seq95b", idl.def("Seq95b"), "struct"),
        vt::<call118::Seq95c>("Seq95c", idl.def("Seq95c"), "struct"),
        vt::<call119::Seq96a>("Seq96a", idl.def("Seq96a"), "union"),
        vt::<call119::Seq96b>("Seq96b", idl.def("Seq96b"), "struct"),
        vt::<call120::Seq97a>("Seq97a", idl.def("Seq97a"), "union"),
        vt::<call120::Seq97b>("Seq97b", idl.def("Seq97b"), "union"),
        vt::<call120::Seq97c>("Seq97c", idl.def("Seq97c"), "struct"),
        vt::<call121::Seq98a>("Seq98a", idl.def("Seq98a"), "union"),
        vt::<call121::Seq98b>("Seq98b", idl.def("Seq98b"), "enum"),
        vt::<call122::Seq99a>("Seq99a", idl.def("Seq99a"), "union"),
    ]
}
fn subjects10(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call122::Seq99c>("Seq99c", idl.def("Seq99c"), "struct"),
        vt::<call123::Seq100a>("Seq100a", idl.def("Seq100a"), "union"),
        vt::<call123::Seq100b>("Seq100b", idl.def("Seq100b"), "struct"),
        vt::<call124::Seq101a>("Seq101a", idl.def("Seq101a"), "union"),
        vt::<call124::Seq101b>("Seq101b", idl.def("Seq101b"), "struct"),
        vt::<call124::Seq101c>("Seq101c", idl.def("Seq101c"), "struct"),
        vt::<call125::Seq102a>("Seq102a", idl.def("Seq102a"), "union"),
        vt::<call125::Seq102b>("Seq102b", idl.def("Seq102b"), "union"),
        vt::<call126::Seq103a>("Seq103a", idl.def("Seq103a"), "union"),
        vt::<call126::Seq103b>("Seq103b", idl.def("Seq103b"), "enum"),
        vt::<call126::Seq103c>("Seq103c", idl.def("Seq103c"), "struct"),
        vt::<call127::Seq104a>("Seq104a", idl.def("Seq104a"), "union"),
        vt::<call128::Seq105a>("Seq105a", idl.def("Seq105a"), "union"),
        vt::<call128::Seq105b>("Seq105b", idl.def("Seq105b"), "struct"),
        vt::<call128::Seq105c>("Seq105c", idl.def("Seq105c"), "struct"),
        vt::<call129::Seq106a>("Seq106a", idl.def("Seq106a"), "union"),
        vt::<call129::Seq106b>("Seq106b", idl.def("Seq106b"), "struct"),
        vt::<call130::Seq107a>("Seq107a", idl.def("Seq107a"), "union"),
        vt::<call130::Seq107b>("Seq107b", idl.def("Seq107b"), "union"),
        vt::<call130::Seq107c>("Seq107c", idl.def("Seq107c"), "struct"),
        vt::<call131::Seq108a>("Seq108a", idl.def("Seq108a"), "union"),
        vt::<call131::Seq108b>("Seq108b", idl.def("Seq108b"), "enum"),
        vt::<call132::Seq109a>("Seq109a", idl.def("Seq109a"), "union"),
        vt::<call132::Seq109c>("Seq109c", idl.def("Seq109c"), "struct"),
        vt::<call133::Seq110a>("Seq110a", idl.def("Seq110a"), "union"),
        vt::<call133::Seq110b>("Seq110b", idl.def("Seq110b"), "struct"),
        vt::<call134::Seq111a>("Seq111a", idl.def("Seq111a"), "union"),
        vt::<call134::Seq111b>("Seq111b", idl.def("Seq111b"), "struct"),
        vt::<call134::Seq111c>("Seq111c", idl.def("Seq111c"), "struct"),
        vt::<call135::Seq112a>("Seq112a", idl.def("Seq112a"), "union"),
        vt::<call135::Seq112b>("Seq112b", idl.def("Seq112b"), "union"),
        vt::<call136::Seq113a>("Seq113a", idl.def("Seq113a"), "union"),
        vt::<call136::Seq113b>("Seq113b", idl.def("Seq113b"), "enum"),
        vt::<call136::Seq113c>("Seq113c", idl.def("Seq113c"), "struct"),
        vt::<call137::Seq114a>("Seq114a", idl.def("Seq114a"), "union"),
        vt::<call138::Seq115a>("Seq115a", idl.def("Seq115a"), "union"),
        vt::<call138::Seq115b>("Seq115b", idl.def("Seq115b"), "struct"),
        vt::<call138::Seq115c>("Seq115c", idl.def("Seq115c"), "struct"),
        vt::<call139::Seq116a>("Seq116a", idl.def("Seq116a"), "union"),
        vt::<call139::Seq116b>("Seq116b", idl.def("Seq116b"), "struct"),
    ]
}
fn subjects11(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call140::Seq117a>("Seq117a", idl.def("Seq117a"), "union"),
        vt::<call140::Seq117b>("Seq117b", idl.def("Seq117b"), "union"),
        vt::<call140::Seq117c>("Seq117c", idl.def("Seq117c"), "struct"),
        vt::<call141::Seq118a>("Seq118a", idl.def("Seq118a"), "union"),
        vt::<call141::Seq118b>("Seq118b", idl.def("Seq118b"), "enum"),
        vt::<call142::Seq119a>("Seq119a", idl.def("Seq119a"), "union"),
        vt::<call142::Seq119c>("Seq119c", idl.def("Seq119c"), "struct"),
        vt::<call143::Seq120a>("Seq120a", idl.def("Seq120a"), "enum"),
        vt::<call143::Seq120b>("Seq120b", idl.def("Seq120b"), "struct"),
        vt::<call144::Seq121a>("Seq121a", idl.def("Seq121a"), "enum"),
        vt::<call144::Seq121b>("Seq121b", idl.def("Seq121b"), "struct"),
        vt::<call144::Seq121c>("Seq121c", idl.def("Seq121c"), "struct"),
        vt::<call145::Seq122a>("Seq122a", idl.def("Seq122a"), "enum"),
        vt::<call145::Seq122b>("Seq122b", idl.def("Seq122b"), "union"),
        vt::<call146::Seq123a>("Seq123a", idl.def("Seq123a"), "enum"),
        vt::<call146::Seq123b>("Seq123b", idl.def("Seq123b"), "enum"),
        vt::<call146::Seq123c>("Seq123c", idl.def("Seq123c"), "struct"),
        vt::<call147::Seq124a>("Seq124a", idl.def("Seq124a"), "enum"),
        vt::<call148::Seq125a>("Seq125a", idl.def("Seq125a"), "enum"),
        vt::<call148::Seq125b>("Seq125b", idl.def("Seq125b"), "struct"),
        vt::<call148::Seq125c>("Seq125c", idl.def("Seq125c"), "struct"),
        vt::<call149::Seq126a>("Seq126a", idl.def("Seq126a"), "enum"),
        vt::<call149::Seq126b>("Seq126b", idl.def("Seq126b"), "struct"),
        vt::<call150::Seq127a>("Seq127a", idl.def("Seq127a"), "enum"),
        vt::<call150::Seq127b>("Seq127b", idl.def("Seq127b"), "union"),
        vt::<call150::Seq127c>("Seq127c", idl.def("Seq127c"), "struct"),
        vt::<call151::Seq128a>("Seq128a", idl.def("Seq128a"), "enum"),
        vt::<call151::Seq128b>("Seq128b", idl.def("Seq128b"), "enum"),
        vt::<call152::Seq129a>("Seq129a", idl.def("Seq129a"), "enum"),
        vt::<call152::Seq129c>("Seq129c", idl.def("Seq129c"), "struct"),
        vt::<call153::Seq130a>("Seq130a", idl.def("Seq130a"), "enum"),
        vt::<call153::Seq130b>("Seq130b", idl.def("Seq130b"), "struct"),
        vt::<call154::Seq131a>("Seq131a", idl.def("Seq131a"), "enum"),
        vt::<call154::Seq131b>("Seq131b", idl.def("Seq131b"), "struct"),
        vt::<call154::Seq131c>("Seq131c", idl.def("Seq131c"), "struct"),
        vt::<call155::Seq132a>("Seq132a", idl.def("Seq132a"), "enum"),
        vt::<call155::Seq132b>("Seq132b", idl.def("Seq132b"), "union"),
        vt::<call156::Seq133a>("Seq133a", idl.def("Seq133a"), "enum"),
        vt::<call156::Seq133b>("Seq133b", idl.def("Seq133b"), "enum"),
        vt::<call156::Seq133c>("Seq133c", idl.def("Seq133c"), "struct"),
    ]
}
fn subjects12(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call157::Seq134a>("Seq134a", idl.def("Seq134a"), "enum"),
        vt::<call158::Seq135a>("Seq135a", idl.def("Seq135a"), "enum"),
        vt::<call158::Seq135b>("Seq135b", idl.def("Seq135b"), "struct"),
        vt::<call158::Seq135c>("Seq135c", idl.def("Seq135c"), "struct"),
        vt::<call159::Seq136a>("Seq136a", idl.def("Seq136a"), "enum"),
        vt::<call159::Seq136b>("Seq136b", idl.def("Seq136b"), "struct"),
        vt::<call160::Seq137a>("Seq137a", idl.def("Seq137a"), "enum"),
        vt::<call160::Seq137b>("Seq137b", idl.def("Seq137b"), "union"),
        vt::<call160::Seq137c>("Seq137c", idl.def("Seq137c"), "struct"),
        vt::<call161::Seq138a>("Seq138a", idl.def("Seq138a"), "enum"),
        vt::<call161::Seq138b>("Seq138b", idl.def("Seq138b"), "enum"),
        vt::<call162::Seq139a>("Seq139a", idl.def("Seq139a"), "enum"),
        vt::<call162::Seq139c>("Seq139c", idl.def("Seq139c"), "struct"),
        vt::<call163::Seq140a>("Seq140a", idl.def("Seq140a"), "enum"),
        vt::<call163::Seq140b>("Seq140b", idl.def("Seq140b"), "struct"),
        vt::<call164::Seq141a>("Seq141a", idl.def("Seq141a"), "enum"),
        vt::<call164::Seq141b>("Seq141b", idl.def("Seq141b"), "struct"),
        vt::<call164::Seq141c>("Seq141c", idl.def("Seq141c"), "struct"),
        vt::<call165::Seq142a>("Seq142a", idl.def("Seq142a"), "enum"),
        vt::<call165::Seq142b>("Seq142b", idl.def("Seq142b"), "union"),
        vt::<call166::Seq143a>("Seq143a", idl.def("Seq143a"), "enum"),
        vt::<call166::Seq143b>("Seq143b", idl.def("Seq143b"), "enum"),
        vt::<call166::Seq143c>("Seq143c", idl.def("Seq143c"), "struct"),
        vt::<call167::Seq144a>("Seq144a", idl.def("Seq144a"), "enum"),
        vt::<call168::Seq145a>("Seq145a", idl.def("Seq145a"), "enum"),
        vt::<call168::Seq145b>("Seq145b", idl.def("Seq145b"), "struct"),
        vt::<call168::Seq145c>("Seq145c", idl.def("Seq145c"), "struct"),
        vt::<call169::Seq146a>("Seq146a", idl.def("Seq146a"), "enum"),
        vt::<call169::Seq146b>("Seq146b", idl.def("Seq146b"), "struct"),
        vt::<call170::Seq147a>("Seq147a", idl.def("Seq147a"), "enum"),
        vt::<call170::Seq147b>("Seq147b", idl.def("Seq147b"), "union"),
        vt::<call170::Seq147c>("Seq147c", idl.def("Seq147c"), "struct"),
        vt::<call171::Seq148a>("Seq148a", idl.def("Seq148a"), "enum"),
        vt::<call171::Seq148b>("Seq148b", idl.def("Seq148b"), "enum"),
        vt::<call172::Seq149a>("Seq149a", idl.def("Seq149a"), "enum"),
        vt::<call172::Seq149c>("Seq149c", idl.def("Seq149c"), "struct"),
        vt::<call173::Seq150b>("Seq150b", idl.def("Seq150b"), "struct"),
        vt::<call174::Seq151b>("Seq151b", idl.def("Seq151b"), "struct"),
        vt::<call174::Seq151c>("Seq151c", idl.def("Seq151c"), "struct"),
        vt::<call175::Seq152b>("Seq152b", idl.def("Seq152b"), "union"),
    ]
}
fn subjects13(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call176::Seq153b>("Seq153b", idl.def("Seq153b"), "enum"),
        vt::<call176::Seq153c>("Seq153c", idl.def("Seq153c"), "struct"),
        vt::<call178::Seq155b>("Seq155b", idl.def("Seq155b"), "struct"),
        vt::<call178::Seq155c>("Seq155c", idl.def("Seq155c"), "struct"),
        vt::<call179::Seq156b>("Seq156b", idl.def("Seq156b"), "struct"),
        vt::<call180::Seq157b>("Seq157b", idl.def("Seq157b"), "union"),
        vt::<call180::Seq157c>("Seq157c", idl.def("Seq157c"), "struct"),
        vt::<call181::Seq158b>("Seq158b", idl.def("Seq158b"), "enum"),
        vt::<call182::Seq159c>("Seq159c", idl.def("Seq159c"), "struct"),
        vt::<call183::Seq160b>("Seq160b", idl.def("Seq160b"), "struct"),
        vt::<call184::Seq161b>("Seq161b", idl.def("Seq161b"), "struct"),
        vt::<call184::Seq161c>("Seq161c", idl.def("Seq161c"), "struct"),
        vt::<call185::Seq162b>("Seq162b", idl.def("Seq162b"), "union"),
        vt::<call186::Seq163b>("Seq163b", idl.def("Seq163b"), "enum"),
        vt::<call186::Seq163c>("Seq163c", idl.def("Seq163c"), "struct"),
        vt::<call188::Seq165b>("Seq165b", idl.def("Seq165b"), "struct"),
        vt::<call188::Seq165c>("Seq165c", idl.def("Seq165c"), "struct"),
        vt::<call189::Seq166b>("Seq166b", idl.def("Seq166b"), "struct"),
        vt::<call190::Seq167b>("Seq167b", idl.def("Seq167b"), "union"),
        vt::<call190::Seq167c>("Seq167c", idl.def("Seq167c"), "struct"),
        vt::<call191::Seq168b>("Seq168b", idl.def("Seq168b"), "enum"),
        vt::<call192::Seq169c>("Seq169c", idl.def("Seq169c"), "struct"),
        vt::<call193::Seq170b>("Seq170b", idl.def("Seq170b"), "struct"),
        vt::<call194::Seq171b>("Seq171b", idl.def("Seq171b"), "struct"),
        vt::<call194::Seq171c>("Seq171c", idl.def("Seq171c"), "struct"),
        vt::<call195::Seq172b>("Seq172b", idl.def("Seq172b"), "union"),
        vt::<call196::Seq173b>("Seq173b", idl.def("Seq173b"), "enum"),
        vt::<call196::Seq173c>("Seq173c", idl.def("Seq173c"), "struct"),
        vt::<call198::Seq175b>("Seq175b", idl.def("Seq175b"), "struct"),
        vt::<call198::Seq175c>("Seq175c", idl.def("Seq175c"), "struct"),
        vt::<call199::Seq176b>("Seq176b", idl.def("Seq176b"), "struct"),
        vt::<call200::Seq177b>("Seq177b", idl.def("Seq177b"), "union"),
        vt::<call200::Seq177c>("Seq177c", idl.def("Seq177c"), "struct"),
        vt::<call201::Seq178b>("Seq178b", idl.def("Seq178b"), "enum"),
        vt::<call202::Seq179c>("Seq179c", idl.def("Seq179c"), "struct"),
        vt::<call203::Many40x0>("Many40x0", idl.def("Many40x0"), "struct"),
        vt::<call203::Many40x1>("Many40x1", idl.def("Many40x1"), "struct"),
        vt::<call203::Many40x2>("Many40x2", idl.def("Many40x2"), "struct"),
        vt::<call203::Many40x3>("Many40x3", idl.def("Many40x3"), "struct"),
        vt::<call203::Many40x4>("Many40x4", idl.def("Many40x4"), "struct"),
    ]
}
fn subjects14(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call203::Many40x5>("Many40x5", idl.def("Many40x5"), "struct"),
        vt::<call203::Many40x6>("Many40x6", idl.def("Many40x6"), "struct"),
        vt::<call203::Many40x7>("Many40x7", idl.def("Many40x7"), "struct"),
        vt::<call203::Many40x8>("Many40x8", idl.def("Many40x8"), "struct"),
        vt::<call203::Many40x9>("Many40x9", idl.def("Many40x9"), "struct"),
        vt::<call203::Many40x10>("Many40x10", idl.def("Many40x10"), "struct"),
        vt::<call203::Many40x11>("Many40x11", idl.def("Many40x11"), "struct"),
        vt::<call203::Many40x12>("Many40x12", idl.def("Many40x12"), "struct"),
        vt::<call203::Many40x13>("Many40x13", idl.def("Many40x13"), "struct"),
        vt::<call203::Many40x14>("Many40x14", idl.def("Many40x14"), "struct"),
        vt::<call203::Many40x15>("Many40x15", idl.def("Many40x15"), "struct"),
        vt::<call203::Many40x16>("Many40x16", idl.def("Many40x16"), "struct"),
        vt::<call203::Many40x17>("Many40x17", idl.def("Many40x17"), "struct"),
        vt::<call203::Many40x18>("Many40x18", idl.def("Many40x18"), "struct"),
        vt::<call203::Many40x19>("Many40x19", idl.def("Many40x19"), "struct"),
        vt::<call203::Many40x20>("Many40x20", idl.def("Many40x20"), "struct"),
        vt::<call203::Many40x21>("Many40x21", idl.def("Many40x21"), "struct"),
        vt::<call203::Many40x22>("Many40x22", idl.def("Many40x22"), "struct"),
        vt::<call203::Many40x23>("Many40x23", idl.def("Many40x23"), "struct"),
        vt::<call203::Many40x24>("Many40x24", idl.def("Many40x24"), "struct"),
        vt::<call203::Many40x25>("Many40x25", idl.def("Many40x25"), "struct"),
        vt::<call203::Many40x26>("Many40x26", idl.def("Many40x26"), "struct"),
        vt::<call203::Many40x27>("Many40x27", idl.def("Many40x27"), "struct"),
        vt::<call203::Many40x28>("Many40x28", idl.def("Many40x28"), "struct"),
        vt::<call203::Many40x29>("Many40x29", idl.def("Many40x29"), "struct"),
        vt::<call203::Many40x30>("Many40x30", idl.def("Many40x30"), "struct"),
        vt::<call203::Many40x31>("Many40x31", idl.def("Many40x31"), "struct"),
        vt::<call203::Many40x32>("Many40x32", idl.def("Many40x32"), "struct"),
        vt::<call203::Many40x33>("Many40x33", idl.def("Many40x33"), "struct"),
        vt::<call203::Many40x34>("Many40x34", idl.def("Many40x34"), "struct"),
        vt::<call203::Many40x35>("Many40x35", idl.def("Many40x35"), "struct"),
        vt::<call203::Many40x36>("Many40x36", idl.def("Many40x36"), "struct"),
        vt::<call203::Many40x37>("Many40x37", idl.def("Many40x37"), "struct"),
        vt::<call203::Many40x38>("Many40x38", idl.def("Many40x38"), "struct"),
        vt::<call203::Many40x39>("Many40x39", idl.def("Many40x39"), "struct"),
        vt::<call204::Many100x0>("Many100x0", idl.def("Many100x0"), "struct"),
        vt::<call204::Many100x1>("Many100x1", idl.def("Many100x1"), "struct"),
        vt::<call204::Many100x2>("Many100x2", idl.def("Many100x2"), "struct"),
        vt::<call204::Many100x3>("Many100x3", idl.def("Many100x3"), "struct"),
        vt::<call204::Many100x4>("Many100x4", idl.def("Many100x4"), "struct"),
    ]
}
fn subjects15(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call204::Many100x5>("Many100x5", idl.def("Many100x5"), "struct"),
        vt::<call204::Many100x6>("Many100x6", idl.def("Many100x6"), "struct"),
        vt::<call204::Many100x7>("Many100x7", idl.def("Many100x7"), "struct"),
        vt::<call204::Many100x8>("Many100x8", idl.def("Many100x8"), "struct"),
        vt::<call204::Many100x9>("Many100x9", idl.def("Many100x9"), "struct"),
        vt::<call204::Many100x10>("Many100x10", idl.def("Many100x10"), "struct"),
        vt::<call204::Many100x11>("Many100x11", idl.def("Many100x11"), "struct"),
        vt::<call204::Many100x12>("Many100x12", idl.def("Many100x12"), "struct"),
        vt::<call204::Many100x13>("Many100x13", idl.def("Many100x13"), "struct"),
        vt::<call204::Many100x14>("Many100x14", idl.def("Many100x14"), "struct"),
        vt::<call204::Many100x15>("Many100x15", idl.def("Many100x15"), "struct"),
        vt::<call204::Many100x16>("Many100x16", idl.def("Many100x16"), "struct"),
        vt::<call204::Many100x17>("Many100x17", idl.def("Many100x17"), "struct"),
        vt::<call204::Many100x18>("Many100x18", idl.def("Many100x18"), "struct"),
        vt::<call204::Many100x19>("Many100x19", idl.def("Many100x19"), "struct"),
        vt::<call204::Many100x20>("Many100x20", idl.def("Many100x20"), "struct"),
        vt::<call204::Many100x21>("Many100x21", idl.def("Many100x21"), "struct"),
        vt::<call204::Many100x22>("Many100x22", idl.def("Many100x22"), "struct"),
        vt::<call204::Many100x23>("Many100x23", idl.def("Many100x23"), "struct"),
        vt::<call204::Many100x24>("Many100x24", idl.def("Many100x24"), "struct"),
        vt::<call204::Many100x25>("Many100x25", idl.def("Many100x25"), "struct"),
        vt::<call204::Many100x26>("Many100x26", idl.def("Many100x26"), "struct"),
        vt::<call204::Many100x27>("Many100x27", idl.def("Many100x27"), "struct"),
        vt::<call204::Many100x28>("Many100x28", idl.def("Many100x28"), "struct"),
        vt::<call204::Many100x29>("Many100x29", idl.def("Many100x29"), "struct"),
        vt::<call204::Many100x30>("Many100x30", idl.def("Many100x30"), "struct"),
        vt::<call204::Many100x31>("Many100x31", idl.def("Many100x31"), "struct"),
        vt::<call204::Many100x32>("Many100x32", idl.def("Many100x32"), "struct"),
        vt::<call204::Many100x33>("Many100x33", idl.def("Many100x33"), "struct"),
        vt::<call204::Many100x34>("Many100x34", idl.def("Many100x34"), "struct"),
        vt::<call204::Many100x35>("Many100x35", idl.def("Many100x35"), "struct"),
        vt::<call204::Many100x36>("Many100x36", idl.def("Many100x36"), "struct"),
        vt::<call204::Many100x37>("Many100x37", idl.def("Many100x37"), "struct"),
        vt::<call204::Many100x38>("Many100x38", idl.def("Many100x38"), "struct"),
        vt::<call204::Many100x39>("Many100x39", idl.def("Many100x39"), "struct"),
        vt::<call204::Many100x40>("Many100x40", idl.def("Many100x40"), "struct"),
        vt::<call204::Many100x41>("Many100x41", idl.def("Many100x41"), "struct"),
        vt::<call204::Many100x42>("Many100x42", idl.def("Many100x42"), "struct"),
        vt::<call204::Many100x43>("Many100x43", idl.def("Many100x43"), "struct"),
        vt::<call204::Many100x44>("Many100x44", idl.def("Many100x44"), "struct"),
    ]
}
fn subjects16(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call204::Many100x45>("Many100x45", idl.def("Many100x45"), "struct"),
        vt::<call204::Many100x46>("Many100x46", idl.def("Many100x46"), "struct"),
        vt::<call204::Many100x47>("Many100x47", idl.def("Many100x47"), "struct"),
        vt::<call204::Many100x48>("Many100x48", idl.def("Many100x48"), "struct"),
        vt::<call204::Many100x49>("Many100x49", idl.def("Many100x49"), "struct"),
        vt::<call204::Many100x50>("Many100x50", idl.def("Many100x50"), "struct"),
        vt::<call204::Many100x51>("Many100x51", idl.def("Many100x51"), "struct"),
        vt::<call204::Many100x52>("Many100x52", idl.def("Many100x52"), "struct"),
        vt::<call204::Many100x53>("Many100x53", idl.def("Many100x53"), "struct"),
        vt::<call204::Many100x54>("Many100x54", idl.def("Many100x54"), "struct"),
        vt::<call204::Many100x55>("Many100x55", idl.def("Many100x55"), "struct"),
        vt::<call204::Many100x56>("Many100x56", idl.def("Many100x56"), "struct"),
        vt::<call204::Many100x57>("Many100x57", idl.def("Many100x57"), "struct"),
        vt::<call204::Many100x58>("Many100x58", idl.def("Many100x58"), "struct"),
        vt::<call204::Many100x59>("Many100x59", idl.def("Many100x59"), "struct"),
        vt::<call204::Many100x60>("Many100x60", idl.def("Many100x60"), "struct"),
        vt::<call204::Many100x61>("Many100x61", idl.def("Many100x61"), "struct"),
        vt::<call204::Many100x62>("Many100x62", idl.def("Many100x62"), "struct"),
        vt::<call204::Many100x63>("Many100x63", idl.def("Many100x63"), "struct"),
        vt::<call204::Many100x64>("Many100x64", idl.def("Many100x64"), "struct"),
        vt::<call204::Many100x65>("Many100x65", idl.def("Many100x65"), "struct"),
        vt::<call204::Many100x66>("Many100x66", idl.def("Many100x66"), "struct"),
        vt::<call204::Many100x67>("Many100x67", idl.def("Many100x67"), "struct"),
        vt::<call204::Many100x68>("Many100x68", idl.def("Many100x68"), "struct"),
        vt::<call204::Many100x69>("Many100x69", idl.def("Many100x69"), "struct"),
        vt::<call204::Many100x70>("Many100x70", idl.def("Many100x70"), "struct"),
        vt::<call204::Many100x71>("Many100x71", idl.def("Many100x71"), "struct"),
        vt::<call204::Many100x72>("Many100x72", idl.def("Many100x72"), "struct"),
        vt::<call204::Many100x73>("Many100x73", idl.def("Many100x73"), "struct"),
        vt::<call204::Many100x74>("Many100x74", idl.def("Many100x74"), "struct"),
        vt::<call204::Many100x75>("Many100x75", idl.def("Many100x75"), "struct"),
        vt::<call204::Many100x76>("Many100x76", idl.def("Many100x76"), "struct"),
        vt::<call204::Many100x77>("Many100x77", idl.def("Many100x77"), "struct"),
        vt::<call204::Many100x78>("Many100x78", idl.def("Many100x78"), "struct"),
        vt::<call204::Many100x79>("Many100x79", idl.def("Many100x79"), "struct"),
        vt::<call204::Many100x80>("Many100x80", idl.def("Many100x80"), "struct"),
        vt::<call204::Many100x81>("Many100x81", idl.def("Many100x81"), "struct"),
        vt::<call204::Many100x82>("Many100x82", idl.def("Many100x82"), "struct"),
        vt::<call204::Many100x83>("Many100x83", idl.def("Many100x83"), "struct"),
        vt::<call204::Many100x84>("Many100x84", idl.def("Many100x84"), "struct"),
    ]
}
fn subjects17(idl: &Idl) -> Vec<Vt> {
    vec![
        vt::<call204::Many100x85>("Many100x85", idl.def("Many100x85"), "struct"),
        vt::<call204::Many100x86>("Many100x86", idl.def("Many100x86"), "struct"),
        vt::<call204::Many100x87>("Many100x87", idl.def("Many100x87"), "struct"),
        vt::<call204::Many100x88>("Many100x88", idl.def("Many100x88"), "struct"),
        vt::<call204::Many100x89>("Many100x89", idl.def("Many100x89"), "struct"),
        vt::<call204::Many100x90>("Many100x90", idl.def("Many100x90"), "struct"),
        vt::<call204::Many100x91>("Many100x91", idl.def("Many100x91"), "struct"),
        vt::<call204::Many100x92>("Many100x92", idl.def("Many100x92"), "struct"),
        vt::<call204::Many100x93>("Many100x93", idl.def("Many100x93"), "struct"),
        vt::<call204::Many100x94>("Many100x94", idl.def("Many100x94"), "struct"),
        vt::<call204::Many100x95>("Many100x95", idl.def("Many100x95"), "struct"),
        vt::<call204::Many100x96>("Many100x96", idl.def("Many100x96"), "struct"),
        vt::<call204::Many100x97>("Many100x97", idl.def("Many100x97"), "struct"),
        vt::<call204::Many100x98>("Many100x98", idl.def("Many100x98"), "struct"),
        vt::<call204::Many100x99>("Many100x99", idl.def("Many100x99"), "struct"),
    ]
}
pub fn subjects(idl: &Idl) -> Vec<Vt> {
    let mut v = vec![];
    v.extend(subjects0(idl));
    v.extend(subjects1(idl));
    v.extend(subjects2(idl));
    v.extend(subjects3(idl));
    v.extend(subjects4(idl));
    v.extend(subjects5(idl));
    v.extend(subjects6(idl));
    v.extend(subjects7(idl));
    v.extend(subjects8(idl));
    v.extend(subjects9(idl));
    v.extend(subjects10(idl));
    v.extend(subjects11(idl));
    v.extend(subjects12(idl));
    v.extend(subjects13(idl));
    v.extend(subjects14(idl));
    v.extend(subjects15(idl));
    v.extend(subjects16(idl));
    v.extend(subjects17(idl));
    v
}
pub fn constants() -> Vec<(&'static str, i32, i32)> {
    vec![
        ("Tone::LOW", call0::Tone::LOW.0, 0),
        ("Tone::HIGH", call0::Tone::HIGH.0, 9),
        ("Consts0::C0", call19::Consts0::C0.0, 0),
        ("Consts0::C1", call19::Consts0::C1.0, 1),
        ("Consts0::C2", call19::Consts0::C2.0, -1),
        ("Consts0::C3", call19::Consts0::C3.0, 127),
        ("Consts0::C4", call19::Consts0::C4.0, 128),
        ("Consts0::C5", call19::Consts0::C5.0, -129),
        ("Consts0::C6", call19::Consts0::C6.0, 2147483647),
        ("Consts0::C7", call19::Consts0::C7.0, -2147483648),
        ("Consts1::C0", call19::Consts1::C0.0, 0),
        ("Consts1::C1", call19::Consts1::C1.0, 1),
        ("Consts1::C2", call19::Consts1::C2.0, -1),
        ("Consts1::C3", call19::Consts1::C3.0, 127),
        ("Consts1::C4", call19::Consts1::C4.0, 128),
        ("Consts1::C5", call19::Consts1::C5.0, -129),
        ("Consts1::C6", call19::Consts1::C6.0, 2147483647),
        ("Consts1::C7", call19::Consts1::C7.0, -2147483648),
        ("Consts2::C0", call19::Consts2::C0.0, 0),
        ("Consts2::C1", call19::Consts2::C1.0, 1),
        ("Consts2::C2", call19::Consts2::C2.0, -1),
        ("Consts2::C3", call19::Consts2::C3.0, 127),
        ("Consts2::C4", call19::Consts2::C4.0, 128),
        ("Consts2::C5", call19::Consts2::C5.0, -129),
        ("Consts2::C6", call19::Consts2::C6.0, 2147483647),
        ("Consts2::C7", call19::Consts2::C7.0, -2147483648),
        ("Consts3::C0", call19::Consts3::C0.0, 0),
        ("Consts3::C1", call19::Consts3::C1.0, 1),
        ("Consts3::C2", call19::Consts3::C2.0, -1),
        ("Consts3::C3", call19::Consts3::C3.0, 127),
        ("Consts3::C4", call19::Consts3::C4.0, 128),
        ("Consts3::C5", call19::Consts3::C5.0, -129),
        ("Consts3::C6", call19::Consts3::C6.0, 2147483647),
        ("Consts3::C7", call19::Consts3::C7.0, -2147483648),
        ("Consts4::C0", call19::Consts4::C0.0, 0),
        ("Consts4::C1", call19::Consts4::C1.0, 1),
        ("Consts4::C2", call19::Consts4::C2.0, -1),
        ("Consts4::C3", call19::Consts4::C3.0, 127),
        ("Consts4::C4", call19::Consts4::C4.0, 128),
        ("Consts4::C5", call19::Consts4::C5.0, -129),
        ("Consts4::C6", call19::Consts4::C6.0, 2147483647),
        ("Consts4::C7", call19::Consts4::C7.0, -2147483648),
        ("Consts5::C0", call19::Consts5::C0.0, 0),
        ("Consts5::C1", call19::Consts5::C1.0, 1),
        ("Consts5::C2", call19::Consts5::C2.0, -1),
        ("Consts5::C3", call19::Consts5::C3.0, 127),
        ("Consts5::C4", call19::Consts5::C4.0, 128),
        ("Consts5::C5", call19::Consts5::C5.0, -129),
        ("Consts5::C6", call19::Consts5::C6.0, 2147483647),
        ("Consts5::C7", call19::Consts5::C7.0, -2147483648),
        ("Seq3b::A", call26::Seq3b::A.0, 1),
        ("Seq8b::A", call31::Seq8b::A.0, 1),
        ("Seq13b::A", call36::Seq13b::A.0, 1),
        ("Seq18b::A", call41::Seq18b::A.0, 1),
        ("Seq23b::A", call46::Seq23b::A.0, 1),
        ("Seq28b::A", call51::Seq28b::A.0, 1),
        ("Seq33b::A", call56::Seq33b::A.0, 1),
        ("Seq38b::A", call61::Seq38b::A.0, 1),
        ("Seq43b::A", call66::Seq43b::A.0, 1),
        ("Seq48b::A", call71::Seq48b::A.0, 1),
        ("Seq53b::A", call76::Seq53b::A.0, 1),
        ("Seq58b::A", call81::Seq58b::A.0, 1),
        ("Seq63b::A", call86::Seq63b::A.0, 1),
        ("Seq68b::A", call91::Seq68b::A.0, 1),
        ("Seq73b::A", call96::Seq73b::A.0, 1),
        ("Seq78b::A", call101::Seq78b::A.0, 1),
        ("Seq83b::A", call106::Seq83b::A.0, 1),
        ("Seq88b::A", call111::Seq88b::A.0, 1),
        ("Seq93b::A", call116::Seq93b::A.0, 1),
        ("Seq98b::A", call121::Seq98b::A.0, 1),
        ("Seq103b::A", call126::Seq103b::A.0, 1),
        ("Seq108b::A", call131::Seq108b::A.0, 1),
        ("Seq113b::A", call136::Seq113b::A.0, 1),
        ("Seq118b::A", call141::Seq118b::A.0, 1),
        ("Seq120a::A", call143::Seq120a::A.0, 1),
        ("Seq121a::A", call144::Seq121a::A.0, 1),
        ("Seq122a::A", call145::Seq122a::A.0, 1),
        ("Seq123a::A", call146::Seq123a::A.0, 1),
        ("Seq123b::A", call146::Seq123b::A.0, 1),
        ("Seq124a::A", call147::Seq124a::A.0, 1),
        ("Seq125a::A", call148::Seq125a::A.0, 1),
        ("Seq126a::A", call149::Seq126a::A.0, 1),
        ("Seq127a::A", call150::Seq127a::A.0, 1),
        ("Seq128a::A", call151::Seq128a::A.0, 1),
        ("Seq128b::A", call151::Seq128b::A.0, 1),
        ("Seq129a::A", call152::Seq129a::A.0, 1),
        ("Seq130a::A", call153::Seq130a::A.0, 1),
        ("Seq131a::A", call154::Seq131a::A.0, 1),
        ("Seq132a::A", call155::Seq132a::A.0, 1),
        ("Seq133a::A", call156::Seq133a::A.0, 1),
        ("Seq133b::A", call156::Seq133b::A.0, 1),
        ("Seq134a::A", call157::Seq134a::A.0, 1),
        ("Seq135a::A", call158::Seq135a::A.0, 1),
        ("Seq136a::A", call159::Seq136a::A.0, 1),
        ("Seq137a::A", call160::Seq137a::A.0, 1),
        ("Seq138a::A", call161::Seq138a::A.0, 1),
        ("Seq138b::A", call161::Seq138b::A.0, 1),
        ("Seq139a::A", call162::Seq139a::A.0, 1),
        ("Seq140a::A", call163::Seq140a::A.0, 1),
        ("Seq141a::A", call164::Seq141a::A.0, 1),
        ("Seq142a::A", call165::Seq142a::A.0, 1),
        ("Seq143a::A", call166::Seq143a::A.0, 1),
        ("Seq143b::A", call166::Seq143b::A.0, 1),
        ("Seq144a::A", call167::Seq144a::A.0, 1),
        ("Seq145a::A", call168::Seq145a::A.0, 1),
        ("Seq146a::A", call169::Seq146a::A.0, 1),
        ("Seq147a::A", call170::Seq147a::A.0, 1),
        ("Seq148a::A", call171::Seq148a::A.0, 1),
        ("Seq148b::A", call171::Seq148b::A.0, 1),
        ("Seq149a::A", call172::Seq149a::A.0, 1),
        ("Seq153b::A", call176::Seq153b::A.0, 1),
        ("Seq158b::A", call181::Seq158b::A.0, 1),
        ("Seq163b::A", call186::Seq163b::A.0, 1),
        ("Seq168b::A", call191::Seq168b::A.0, 1),
        ("Seq173b::A", call196::Seq173b::A.0, 1),
        ("Seq178b::A", call201::Seq178b::A.0, 1),
    ]
}
