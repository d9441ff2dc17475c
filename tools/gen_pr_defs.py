#!/usr/bin/env python3
"""Writes harness/rt/src/pr_defs.rs: the definitions read and written through inputs and outputs of the user's own."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from idl import parse, subject

TEXT = '''
    enum Tint { PALE = 0; DARK = 3; }
    struct Nil {}
    struct Pair { 1: required i32 a; 2: optional string b; }
    union Either { 1: i64 number; 2: string text; 3: bool flag; 4: Pair pair; 20: list<double> reals; 5: Nil nothing; }
    struct Every {
      1: required bool flag;
      2: optional i8 tiny;
      3: required i16 short;
      4: optional i32 medium;
      5: required i64 long;
      6: optional double real;
      7: required string text;
      8: optional binary raw;
      30: required Tint tint;
      9: optional Pair pair;
      10: required list<i32> ints;
      11: optional list<bool> flags;
      12: required list<string> texts;
      13: optional list<Pair> pairs;
      14: required Either either;
      16: optional Rc<str> shared;
      17: optional Box<Nil> boxed;
      18: optional list<double> reals;
    }
    struct Later { 1: required i32 a; 9: optional bool last; }
'''
def main():
    o = ["// @generated by tools/gen_pr_defs.py", "#![allow(non_snake_case, clippy::all)]",
         "use crate::subject::*;", "use mc::ty::M;", "",
         "compact_thrift_runtime::thrift! {" + TEXT + "}",
         'pub const IDL: &str = r##"' + TEXT + '"##;']
    o += [subject(*d) for d in parse(TEXT)]
    open(os.path.join(os.path.dirname(__file__), '../harness/rt/src/pr_defs.rs'), 'w').write('\n'.join(o) + '\n')
main()
