#!/usr/bin/env python3
"""Writes harness/pq/src/defs.rs: the bridge between parquet.idl and the structures of compact_thrift_parquet::format."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from idl import parse, subject
text = open(here + '/parquet.idl').read()
o = ["// @generated by tools/gen_pq_defs.py", "#![allow(non_snake_case, clippy::all)]",
     "use crate::subject::*;", "use compact_thrift_parquet::format::*;", "use mc::ty::{Idl, M};", ""]
regs, consts = [], []
for kw, name, items in parse(text):
    o.append(subject(kw, name, items))
    regs.append(f'        vt::<{name}>("{name}", idl.def("{name}"), "{kw}"),')
    if kw == 'enum':
        consts += [f'        ("{name}::{c}", {name}::{c}.0, {n}),' for c, n in items]
o.append('pub const IDL: &str = include_str!("../../../tools/parquet.idl");')
o.append("pub fn subjects(idl: &Idl) -> Vec<Vt> {\n    vec![\n" + '\n'.join(regs) + "\n    ]\n}")
o.append("pub fn constants() -> Vec<(&'static str, i32, i32)> {\n    vec![\n" + '\n'.join(consts) + "\n    ]\n}")
open(here + '/../harness/pq/src/defs.rs', 'w').write('\n'.join(o) + '\n')
