#!/usr/bin/env python3
"""Writes harness/rt/src/sy_defs.rs: every way of writing a definition that the macro's documentation allows."""
import os, sys
from itertools import product
sys.path.insert(0, os.path.dirname(__file__))
from idl import parse, subject

COMMENTS = ['', '/// one line\n', '/** block\n   of two lines */\n', '// plain\n', '/* plain block */\n', '/// first\n/// second\n/** third */\n']
REQ = ['required', 'optional']
DEFAULTS = ['', ' = 7', ' = -3', ' = 2.5', ' = "text"', ' = true']
SEPS = [';', '']
TYPES = ['bool', 'byte', 'i8', 'i16', 'i32', 'i64', 'double', 'string', 'String', 'binary', 'Leaf', 'Fork', 'Tone', 'list<bool>', 'list<byte>', 'list<i8>',
         'list<i16>', 'list<i32>', 'list<i64>', 'list<double>', 'list<string>', 'list<binary>', 'list<Leaf>', 'list<Fork>', 'list<Tone>', 'Box<i32>',
         'Box<bool>', 'Box<Leaf>', 'Box<string>', 'Box<str>', 'Box<Fork>', 'Rc<string>', 'Rc<str>', 'Rc<Leaf>', 'Rc<i64>', 'Rc<double>', 'Rc<Tone>',
         'Arc<string>', 'Arc<str>', 'Arc<Fork>', 'Arc<binary>', 'Arc<byte>']
NAMES = ['input', 'output', 'last_field_id', 'field_type', 'result', 'inner', 'stop', 'value', 'values', 'new', 'default', 'name', 'len', 'index', 'other',
         'field_id', 'header', 'this', 'me', 'flag', 'found', 'seen', 'missing', 'i', 'x', 'e', 'r', 'f', 'fmt', 'clone', 'eq', 'from', 'into',
         'fill_thrift', 'write_thrift', 'read_thrift', 'fill_thrift_field', 'write_thrift_field', 'required', 'optional', 'list', 'set', 'string', 'binary',
         'double', 'union', 'namespace', 'thrift', 'camelCase', 'UPPER', '_hidden', 'a1']

BASE = '''
enum Tone { LOW = 0; HIGH = 9; }
struct Leaf { 1: required i32 a; 2: optional bool b; }
union Fork { 1: i32 left; 2: string right; }
'''
calls = []   # one macro call each
def ind(s): return ''.join('    ' + l + '\n' for l in s.rstrip('\n').split('\n'))

def structs():
    """Single fields: all comments, defaults and separators of a few types; all types with half of the rest."""
    fields = []
    for ty, c, r, d, s in product(['i32', 'list<string>', 'Box<Leaf>'], COMMENTS, REQ, DEFAULTS, SEPS):
        fields.append((c, r, ty, d, s))
    for ty, c, r, d, s in product(TYPES, COMMENTS[:2], REQ, DEFAULTS[:2], SEPS):
        fields.append((c, r, ty, d, s))
    out = []
    for i in range(0, len(fields), 24):
        body = ''.join(f"{c}{n + 1}: {r} {ty} f{n}{d}{s}\n" for n, (c, r, ty, d, s) in enumerate(fields[i:i+24]))
        out.append(f"struct Field{i // 24} {{\n{ind(body)}}}")
    return out

def pairs():
    """Two neighbouring fields: how the first ends, how the second begins."""
    out = []
    for i, (d, s, c, r, last) in enumerate(product(DEFAULTS[:2], SEPS, COMMENTS, REQ, SEPS)):
        out.append(f"struct Pair{i} {{\n    1: optional list<i32> a{d}{s}\n{ind(f'{c}2: {r} Tone b{last}')}}}")
    return out

def unions():
    members = list(product(COMMENTS[:3], TYPES, SEPS)) + list(product(COMMENTS[3:], TYPES[:2] + ['list<Leaf>', 'Rc<str>'], SEPS))
    out = []
    for i in range(0, len(members), 21):
        body = ''.join(f"{c}{n + 1}: {ty} m{n}{s}\n" for n, (c, ty, s) in enumerate(members[i:i+21]))
        out.append(f"union Member{i // 21} {{\n{ind(body)}}}")
    for i, (c, s) in enumerate(product(COMMENTS, SEPS)):
        out.append(f"union Lone{i} {{\n{ind(f'{c}3: i64 only{s}')}}}")
    return out

def enums():
    out = []
    values = ['0', '1', '-1', '127', '128', '-129', '2147483647', '-2147483648']
    for i, c in enumerate(COMMENTS):
        body = ''.join(f"{c}C{n} = {v};\n" for n, v in enumerate(values))
        out.append(f"enum Consts{i} {{\n{ind(body)}}}")
    out.append("enum NoConsts {}")
    return out

def names():
    out = []
    for i in range(0, len(NAMES), 13):
        some = NAMES[i:i+13]
        ty = ['i32', 'bool', 'string', 'list<i32>']
        for r in REQ:
            body = '\n'.join(f"    {n + 1}: {r} {ty[n % 4]} {x};" for n, x in enumerate(some))
            out.append(f"struct {r.title()}Names{i} {{\n{body}\n}}")
        body = '\n'.join(f"    {n + 1}: {ty[n % 4]} {x};" for n, x in enumerate(some))
        out.append(f"union AnyNames{i} {{\n{body}\n}}")
    for x in ['Result', 'Error', 'ThriftError', 'CompactThriftInput', 'FieldName', 'lower', 'T', 'Rc', 'Arc', 'Read', 'Cow']:
        out.append(f"struct {x} {{ 1: required i32 a; 2: optional bool b; }}")
    return out

def sequences():
    """Neighbouring definitions in one call: every kind after every kind with every comment between, and at the start."""
    kinds = {'struct': "struct {} {{ 1: optional bool a }}", 'empty': "struct {} {{}}", 'union': "union {} {{ 1: i32 a }}", 'enum': "enum {} {{ A = 1; }}",
             'namespace': "namespace rust {}"}
    n = 0
    for before, c, kind in product([None] + list(kinds), COMMENTS, kinds):
        parts = []
        if before:
            parts.append(kinds[before].format(f"Seq{n}a"))
        parts.append(c + kinds[kind].format(f"Seq{n}b"))
        if n % 2:
            parts.append("struct Seq%dc {}" % n)
        calls.append('\n'.join(parts))
        n += 1
    for k in (40, 100):
        calls.append('\n'.join(f"struct Many{k}x{i} {{}}" for i in range(k)))
    calls.append('')

def main():
    calls.append(BASE)
    for group in (structs(), pairs(), unions(), enums(), names()):
        for i in range(0, len(group), 10):
            calls.append('\n'.join(group[i:i+10]))
    sequences()
    o = ["// @generated by tools/gen_sy_defs.py", "#![allow(non_snake_case, non_camel_case_types, unused_doc_comments, clippy::all)]",
         "use crate::subject::*;", "use mc::ty::{Idl, M};", ""]
    # names that hide others live in modules of their own
    hide = {'Result', 'Error', 'ThriftError', 'CompactThriftInput', 'FieldName', 'Rc', 'Arc', 'Read', 'Cow', 'T', 'lower'}
    alltext = ''
    regs, consts = [], []
    for k, c in enumerate(calls):
        alltext += c + '\n'
        o.append(f"pub mod call{k} {{\n    #[allow(unused_imports)]\n    use super::call0::{{Fork, Leaf, Tone}};" if k else "pub mod call0 {")
        o.append("    compact_thrift_runtime::thrift! {\n" + ind(ind(c)) + "    }\n}")
        for kw, name, items in parse(c):
            p = f"call{k}::"
            o.append(subject(kw, name, items, path=p))
            regs.append(f'        vt::<{p}{name}>("{name}", idl.def("{name}"), "{kw}"),')
            if kw == 'enum':
                consts += [f'        ("{name}::{x}", {p}{name}::{x}.0, {v}),' for x, v in items]
    o.append('pub const IDL: &str = r##"' + alltext + '"##;')
    chunk = 40
    for i in range(0, len(regs), chunk):
        o.append(f"fn subjects{i // chunk}(idl: &Idl) -> Vec<Vt> {{\n    vec![\n" + '\n'.join(regs[i:i+chunk]) + "\n    ]\n}")
    o.append("pub fn subjects(idl: &Idl) -> Vec<Vt> {\n    let mut v = vec![];\n" + ''.join(f"    v.extend(subjects{i}(idl));\n" for i in range((len(regs) + chunk - 1) // chunk)) + "    v\n}")
    o.append("pub fn constants() -> Vec<(&'static str, i32, i32)> {\n    vec![\n" + '\n'.join(consts) + "\n    ]\n}")
    open(os.path.join(os.path.dirname(__file__), '../harness/rt/src/sy_defs.rs'), 'w').write('\n'.join(o) + '\n')
    print(len(regs), 'definitions', len(calls), 'calls')
main()
