"""A little parser for definition text, shared by the generators in this directory."""
import re

def lex(s):
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    return re.findall(r'"[^"]*"|[\w.\-]+|[^\s\w]', s)

def parse(text):
    t = lex(text); p = 0; out = []
    while p < len(t):
        kw = t[p]
        if kw == 'namespace':
            p += 3; continue
        name = t[p+1]; assert t[p+2] == '{', (name, t[p:p+4]); p += 3
        items = []
        while t[p] != '}':
            if kw == 'enum':
                items.append((t[p], int(t[p+2]))); p += 3
            else:
                fid = int(t[p]); assert t[p+1] == ':'; p += 2
                req = None
                if kw == 'struct':
                    req = t[p]; p += 1
                ty = t[p]; p += 1
                el = None
                if t[p] == '<':
                    el = t[p+1]; p += 3
                fname = t[p]; p += 1
                if t[p] == '=': p += 2
                items.append((fid, req, ty, el, fname))
            if t[p] in ';,': p += 1
        p += 1
        out.append((kw, name, items))
    return out

def subject(kw, name, items, path=''):
    """The Rust implementation of Subject for one definition."""
    n = path + name
    o = []
    if kw == 'enum':
        o.append(f"impl Subject for {n} {{ fn from_m(m: &M) -> Self {{ if let M::I32(x) = m {{ {n}(conv(&M::I32(*x))) }} else {{ cannot(m) }} }} fn to_m(&self) -> M {{ self.0.to_m() }} }}")
    elif kw == 'struct':
        dead = '' if items else '    let _ = f;\n'
        o.append(f"#[allow(clippy::needless_update)]\nimpl Subject for {n} {{\n  fn from_m(m: &M) -> Self {{\n    let M::Struct(f) = m else {{ return cannot(m) }};\n{dead}"
                 f"    {n} {{ " + ' '.join(f"{x[4]}: conv(&f[{i}])," for i, x in enumerate(items)) + f" ..Default::default() }}\n  }}\n"
                 f"  fn to_m(&self) -> M {{ M::Struct(vec![" + ', '.join(f"self.{x[4]}.to_m()" for x in items) + "]) }\n}")
    else:
        o.append(f"impl Subject for {n} {{\n  fn from_m(m: &M) -> Self {{\n    match m {{\n" +
                 ''.join(f"      M::Union({i}, x) => {n}::{x[4]}(conv(x)),\n" for i, x in enumerate(items)) +
                 f"      _ => cannot(m),\n    }}\n  }}\n  fn to_m(&self) -> M {{\n    match self {{\n" +
                 ''.join(f"      {n}::{x[4]}(x) => M::Union({i}, Box::new(x.to_m())),\n" for i, x in enumerate(items)) +
                 f"      #[allow(unreachable_patterns)]\n      other => M::Alien(format!(\"{{other:?}}\")),\n    }}\n  }}\n}}")
    return '\n'.join(o)

def ctor(kw, name, items, path=''):
    n = path + name
    if kw != 'struct': return None
    args = ', '.join(f"like(&d.{x[4]}, &f[{i}])" for i, x in enumerate(items))
    return f'("{name}", |m| {{ let M::Struct(f) = m else {{ return cannot(m) }}; let d = {n}::default(); let _ = (&d, &f); {n}::new({args}).to_m() }})'
