#!/usr/bin/env python3
"""Writes harness/rt/src/defs.rs: the definitions ("programs") the runtime checks read and write values of."""
import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from idl import parse, subject, ctor

BASE = r'''
    /// enum doc
    enum Color { RED = 0; GREEN = 1; /** documented */ BLUE = 7; BIG = 2147483647; NEG = -5; }
    enum Zero { ONLY = 3; }
    struct Empty {}
    struct Small { 1: required i32 a; 2: optional string b; }
    union Choice {
      /** doc */
      1: i32 number
      2: string text;
      3: bool flag
      4: Small small;
      5: double real;
      20: list<i32> many;
      21: Empty nothing
      -3: binary raw;
      300: i64 big;
      22: list<bool> flags;
      23: Color color;
      24: i8 tiny
      25: i16 short;
    }
    union OneFlag { 1: bool only; }
    union Late { 5: Empty first; 1: i64 second; }
    struct AllReq {
      1: required bool flag;
      2: required i8 tiny
      3: required i16 short
      4: required i32 medium = 5;
      5: required i64 long
      6: required double real;
      7: required string text;
      8: required binary raw;
      9: required Color color;
      10: required Small small;
      11: required list<i32> ints;
      12: required list<bool> flags;
      13: required list<string> texts;
      14: required list<binary> raws;
      15: required list<Small> smalls;
      16: required Choice choice;
      17: required list<double> reals;
      18: required list<Color> colors;
      19: required list<Choice> choices
      20: required list<i8> tinies;
      21: required list<i64> longs;
      22: required list<i16> shorts;
    }
    /** a struct
     *  of optional fields */
    struct AllOpt {
      1: optional bool flag;
      2: optional i8 tiny
      3: optional i16 short
      4: optional i32 medium
      5: optional i64 long
      6: optional double real;
      7: optional string text = "none";
      8: optional binary raw;
      9: optional Color color;
      10: optional Small small;
      11: optional list<i32> ints;
      12: optional list<bool> flags;
      13: optional list<string> texts;
      14: optional list<binary> raws;
      15: optional list<Small> smalls;
      16: optional Choice choice;
      17: optional list<double> reals;
      18: optional list<Color> colors;
      19: optional bool last = true;
    }
    struct WrapReq {
      1: required Box<bool> box_flag;
      2: required Rc<bool> rc_flag
      3: required Arc<bool> arc_flag
      4: required Box<i32> box_int;
      5: required Rc<string> rc_string;
      6: required Arc<String> arc_string;
      7: required Box<str> box_str;
      8: required Rc<str> rc_str;
      9: required Arc<str> arc_str;
      10: required Box<Small> box_small;
      11: required Rc<Small> rc_small;
      12: required Arc<Choice> arc_choice;
      13: required Box<double> box_real;
      14: required Box<Color> box_color;
      15: required Box<binary> box_raw;
    }
    struct WrapOpt {
      1: optional Box<bool> box_flag;
      2: optional Rc<bool> rc_flag
      3: optional Arc<bool> arc_flag
      4: optional Box<i32> box_int;
      5: optional Rc<string> rc_string;
      7: optional Box<str> box_str;
      8: optional Rc<str> rc_str;
      9: optional Arc<str> arc_str;
      10: optional Box<Small> box_small;
      11: optional Rc<Small> rc_small;
      12: optional Arc<Choice> arc_choice;
    }
    struct Bytes {
      1: required byte one;
      2: optional byte maybe;
      3: required list<byte> list_of;
    }
    struct Nested {
      1: required Small first;
      2: optional Nested2 second;
      3: required list<Nested2> rest;
      4: optional bool flag;
    }
    struct Nested2 {
      1: optional Empty e;
      2: required Choice c;
      3: optional AllOpt opts;
    }
    /// presence in all combinations
    struct Mixed {
      1: required i32 a;
      2: optional i32 b;
      3: required bool c;
      4: optional string d;
    }
    struct ReqThree {
      7: required Small z;
      3: required list<i32> y;
      5: required bool x;
    }
    struct Names {
      1: required i32 last_field_id;
      2: optional i32 input;
      3: required bool field_type;
      4: required i32 output;
      5: optional i32 result;
      6: required i32 stop;
      7: optional string inner;
    }
    struct HugeElement {
      1: required i64 a1; 2: required i64 a2; 3: required i64 a3; 4: required i64 a4;
      5: required string s1; 6: required string s2; 7: required string s3; 8: required string s4;
    }
'''
SETS = r'''
    struct Sets { 1: required set<i32> ints; 2: optional set<string> texts; 3: optional bool after; }
'''
RECURSIVE = r'''
    struct Node { 1: optional Box<Node> next; 2: optional list<Node> kids; 3: required i32 v; }
'''
# field-id layouts: ids in declaration order
LAYOUTS = [
    [1, 2, 3], [1, 16, 17], [1, 17, 33], [15, 16, 30], [16, 32, 48], [14, 29, 45], [3, 2, 1], [17, 1, 2], [100, 1, 50],
    [0, 1, 2], [1, 0, 2], [-1, 0, 1], [-1, -2, -3], [-16, -1, 14], [-32768, 32767, 0], [32767, -32768, 1],
    [32752, 32767, 1], [32751, 32767, 5], [1, 128, 129], [200, 215, 231], [8191, 8192, 8193], [-64, -65, -63], [63, 64, 65],
    [1, 15, 31], [-5, 10, 26], [5, 5000, 5014], [-32768, -32753, -32737], [256, 512, 1], [1, -1, 2], [2, 1, 3],
]
KINDS = [  # three fields each; cycles over the layouts
    ('required bool', 'optional i32', 'required bool'),
    ('optional bool', 'required string', 'optional bool'),
    ('required Small', 'optional bool', 'required list<i32>'),
    ('optional list<bool>', 'required i64', 'optional Small'),
    ('required Box<bool>', 'optional Arc<bool>', 'required double'),
    ('required Color', 'required Choice', 'optional binary'),
    ('optional i8', 'optional i16', 'optional Rc<str>'),
]

def layouts():
    o = []
    for i, ids in enumerate(LAYOUTS):
        for rep in range(2):
            k = KINDS[(i * 2 + rep * 3) % len(KINDS)]
            fs = '; '.join(f"{fid}: {kind} {nm}" for fid, kind, nm in zip(ids, k, 'abc'))
            o.append(f"    struct Lay{i}{'xy'[rep]} {{ {fs} }}")
    for i, ids in enumerate(LAYOUTS):
        if i % 3 == 0:
            fs = ' '.join(f"{fid}: {kind} {nm};" for fid, kind, nm in zip(ids, ['bool', 'i32', 'Small'], 'ABC'))
            o.append(f"    union Uni{i} {{ {fs} }}")
    return '\n'.join(o) + '\n'

def main():
    groups = [('def', BASE), ('layout', layouts()), ('set', SETS), ('rec', RECURSIVE)]
    o = ["// @generated by tools/gen_rt_defs.py", "#![allow(non_snake_case, clippy::all)]",
         "use crate::subject::*;", "use mc::ty::{Idl, M};", ""]
    regs, ctors, consts, alltext = [], [], [], ''
    for g, text in groups:
        # several macro calls: the number of definitions per call is limited by the recursion limit
        lines = text
        defs = split(lines)
        for i in range(0, len(defs), 20):
            o.append("compact_thrift_runtime::thrift! {\n    namespace rust test\n" + '\n'.join(defs[i:i+20]) + "\n}")
        alltext += text
        for kw, name, items in parse(text):
            if g == 'rec':
                continue
            o.append(subject(kw, name, items))
            regs.append(f'        vt::<{name}>("{name}", idl.def("{name}"), "{g}"),')
            c = ctor(kw, name, items)
            if c: ctors.append('        ' + c + ',')
            if kw == 'enum':
                consts += [f'        ("{name}::{c}", {name}::{c}.0),' for c, _ in items]
    # definitions used before they are defined come last in the model's text
    o.append('pub const IDL: &str = r##"' + reorder(alltext) + '"##;')
    o.append("pub fn subjects(idl: &Idl) -> Vec<Vt> {\n    vec![\n" + '\n'.join(regs) + "\n    ]\n}")
    o.append("#[allow(clippy::type_complexity)]\npub fn constructors() -> Vec<(&'static str, fn(&M) -> M)> {\n    vec![\n" + '\n'.join(ctors) + "\n    ]\n}")
    o.append("pub fn constants() -> Vec<(&'static str, i32)> {\n    vec![\n" + '\n'.join(consts) + "\n    ]\n}")
    open(os.path.join(os.path.dirname(__file__), '../harness/rt/src/defs.rs'), 'w').write('\n'.join(o) + '\n')

def split(text):
    """Top-level definitions with the comments before them."""
    out, cur, depth = [], '', 0
    for line in text.split('\n'):
        if not line.strip(): continue
        cur += line + '\n'
        depth += line.count('{') - line.count('}')
        if depth == 0 and '}' in line:
            out.append(cur.rstrip()); cur = ''
    assert not cur.strip(), cur
    return out

def reorder(text):
    defs = split(text)
    n = [i for i, d in enumerate(defs) if 'struct Nested {' in d][0]
    m = [i for i, d in enumerate(defs) if 'struct Nested2 {' in d][0]
    defs[n], defs[m] = defs[m], defs[n]
    return '\n'.join(d for d in defs if 'struct Node' not in d)

main()
