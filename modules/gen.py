"""Programs for the modules engine (C06, C07): namespaces, types, methods and backends, as Rust and as a description.

A type is a tuple: ('u8',), ('String',), .., ('ref', type index), ('Option', T), ('OptBox', T), ('Box', T), ('Vec', T), ('Map', K, V), ('tuple', T..), ('Result', T, E), ('array', T, n)
"""
import itertools, json

PRIMS = ['u8', 'i32', 'u64', 'f64', 'bool', 'char', 'String', 'unit', 'usize', 'i8', 'u16', 'i16', 'u32', 'i64', 'isize', 'u128', 'i128', 'f32']
FORMS = ['named', 'tuple', 'newtype', 'ext', 'int', 'adj', 'unt']
WRAPS = ['OptBox', 'Vec', 'MapOf', 'OptVec', 'TupVec', 'ResVec', 'VecVec', 'MapVec', 'OptMap', 'SetVec']


def wrap(w, t):
    return {
        'OptBox': ('OptBox', t), 'Vec': ('Vec', t), 'MapOf': ('Map', ('String',), t), 'OptVec': ('Option', ('Vec', t)), 'TupVec': ('tuple', ('u8',), ('Vec', t)),
        'ResVec': ('Result', ('Vec', t), ('u8',)), 'VecVec': ('Vec', ('Vec', t)), 'MapVec': ('Map', ('String',), ('Vec', t)), 'OptMap': ('Option', ('Map', ('String',), t)), 'SetVec': ('Vec', ('OptBox', t)),
        'Box': ('Box', t), 'plain': t, 'Arr': ('array', t, 2), 'Opt': ('Option', t), 'Tup': ('tuple', t, ('bool',)), 'Res': ('Result', ('String',), t),
    }[w]


class Program:
    def __init__(self, key, keep=False):
        # keep: the names of the namespaces as given; otherwise they are made unique in the binary, because members are collected by the name of their namespace
        self.keep, self.n = keep, None
        self.key, self.ns, self.types, self.methods, self.backends, self.order = key, [], [], [], [], None

    def namespace(self, rust, name=None, mod=None):
        self.ns.append(dict(rust=rust, name=name, mod=mod))
        return len(self.ns) - 1

    def type(self, rust, ns, form='named', refs=(), client=None, mod=None, variants=None):
        """refs: the types of the fields besides the marker"""
        self.types.append(dict(rust=rust, ns=ns, form=form, refs=list(refs), client=client or rust.removeprefix('r#'), mod=mod))
        return len(self.types) - 1

    def method(self, ns, rust, args=(), ret=('unit',), kind='method'):
        """args: (name, type); kind: method | stream | boxed"""
        self.methods.append(dict(ns=ns, rust=rust, name=rust.removeprefix('r#'), args=[(n, t) for n, t in args], ret=ret, kind=kind))

    def backend(self, ns, style='tuple'):
        self.backends.append(dict(ns=list(ns), style=style))


def rust_ty(p, t, at=None):
    k = t[0]
    r = lambda x: rust_ty(p, x, at)
    if k == 'ref':
        ty = p.types[t[1]]
        if ty['mod'] == at:
            return ty['rust']
        up = 'super::' if at else ''
        return f"{up}{ty['mod'] + '::' if ty['mod'] else ''}{ty['rust']}"
    if k == 'unit': return '()'
    if k == 'Option': return f'Option<{r(t[1])}>'
    if k == 'OptBox': return f'Option<Box<{r(t[1])}>>'
    if k == 'Box': return f'Box<{r(t[1])}>'
    if k == 'Vec': return f'Vec<{r(t[1])}>'
    if k == 'Map': return f'std::collections::BTreeMap<{r(t[1])}, {r(t[2])}>'
    if k == 'Set': return f'std::collections::BTreeSet<{r(t[1])}>'
    if k == 'tuple': return '(' + ''.join(r(x) + ', ' for x in t[1:]) + ')'
    if k == 'Result': return f'Result<{r(t[1])}, {r(t[2])}>'
    if k == 'array': return f'[{r(t[1])}; {t[2]}]'
    return k


def ns_path(p, i, at):
    n = p.ns[i]
    up = 'super::' if at else ''
    if n['mod'] == at:
        return n['rust']
    return f"{up}{n['mod'] + '::' if n['mod'] else ''}{n['rust']}"


def rust_type(p, i):
    t = p.types[i]
    at = t['mod']
    m = f'm{i}'
    f = [rust_ty(p, x, at) for x in t['refs']]
    ns = ns_path(p, t['ns'], at)
    o = '#[derive(zod::Zod, serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]\n'
    o += f'#[zod(namespace = "{ns}")]\n'
    if t['client'] != t['rust'].removeprefix('r#'):
        o += f'#[serde(rename = "{t["client"]}")]\n'
    form, name = t['form'], t['rust']
    if form == 'named':
        o += f'pub struct {name} {{ pub {m}: u8, ' + ''.join(f'pub r{j}: {x}, ' for j, x in enumerate(f)) + '}'
    elif form == 'tuple':
        o += f'pub struct {name}(pub u8, ' + ''.join(f'pub {x}, ' for x in f) + ');' if f else f'pub struct {name}(pub u8, pub bool);'
    elif form == 'newtype':
        o += f'pub struct {name}(pub {f[0] if f else "u8"});'
    else:
        o += {'ext': '', 'int': '#[serde(tag = "t")]\n', 'adj': '#[serde(tag = "t", content = "c")]\n', 'unt': '#[serde(untagged)]\n'}[form]
        if form == 'unt':
            o += f'pub enum {name} {{ Mm {{ {m}: u8 }}, ' + ''.join(f'Rr{j} {{ r{j}: {x} }}, ' for j, x in enumerate(f)) + '}'
        else:
            o += f'pub enum {name} {{ Mm{i}, Nn {{ {m}: u8 }}, ' + ''.join(f'Rr{j} {{ r{j}: {x} }}, ' for j, x in enumerate(f))
            if form in ('ext', 'adj'):
                o += ''.join(f'Tt{j}({x}), Uu{j}(u8, {x}), ' for j, x in enumerate(f))
            o += '}'
    return o + '\n'


def rust_ns(p, i):
    n = p.ns[i]
    at = n['mod']
    o = '#[derive(zod::Namespace, Default)]\n'
    if n['name'] is not None:
        o += f'#[namespace(name = "{n["name"]}")]\n'
    o += f'pub struct {n["rust"]};\n#[zod::rpc::namespace]\nimpl {n["rust"]} {{\n'
    for m in p.methods:
        if m['ns'] != i:
            continue
        args = ', '.join(['&mut self'] + [f'{a}: {rust_ty(p, t, at)}' for a, t in m['args']])
        log = f'crate::rt::called("{client_ns(p, i)}", "{m["name"]}", vec![' + ', '.join(f'crate::rt::text(&{a})' for a, _ in m['args']) + ']);'
        r = rust_ty(p, m['ret'], at)
        if m['kind'] == 'method':
            unit = r == '()' and len(m['args']) % 2 == 0
            o += f'pub async fn {m["rust"]}({args})' + ('' if unit else f' -> {r}') + f' {{ {log} crate::rt::ret() }}\n'
        elif m['kind'] == 'stream':
            o += f'pub fn {m["rust"]}({args}) -> impl futures::Stream<Item = {r}> {{ {log} futures::stream::iter(crate::rt::ret::<Vec<{r}>>()) }}\n'
        else:
            o += f'pub fn {m["rust"]}({args}) -> std::pin::Pin<Box<dyn futures::Stream<Item = {r}> + Send>> {{ {log} Box::pin(futures::stream::iter(crate::rt::ret::<Vec<{r}>>())) }}\n'
    return o + '}\n'


def client_ns(p, i):
    return p.ns[i]['name'] if p.ns[i]['name'] is not None else p.ns[i]['rust'].removeprefix('r#')


def number(p, n):
    if p.keep or p.n is not None:
        return
    p.n = n
    for x in p.ns:
        if x['name'] is None:
            x['rust'] += f'_{n}'
        else:
            x['name'] += f'_{n}'


def rust_program(p, n):
    parts = [(x['mod'], rust_ns(p, i)) for i, x in enumerate(p.ns)] + [(x['mod'], rust_type(p, i)) for i, x in enumerate(p.types)]
    if p.order:
        parts = [parts[i] for i in p.order]
    mods = {}
    o = f'pub mod p{n} {{\n'
    for mod, text in parts:
        if mod:
            mods.setdefault(mod, []).append(text)
        else:
            o += text
    for mod, texts in mods.items():
        o += f'pub mod {mod} {{\n' + ''.join(texts) + '}\n'
    for j, b in enumerate(p.backends):
        f = [ns_path(p, i, None) for i in b['ns']]
        d = [f'{x}' for x in f]
        if b['style'] == 'unit':
            o += f'#[derive(zod::rpc::Backend)]\npub struct B{j};\npub fn b{j}() -> B{j} {{ B{j} }}\n'
        elif b['style'] == 'tuple':
            o += f'#[derive(zod::rpc::Backend)]\npub struct B{j}({", ".join("pub " + x for x in f)});\npub fn b{j}() -> B{j} {{ B{j}({", ".join(d)}) }}\n'
        else:
            names = ['first', 'r#type', 'id', 'sender'] if b['style'] == 'named' else ['d', 'c', 'b', 'a']
            o += f'#[derive(zod::rpc::Backend)]\npub struct B{j} {{ {", ".join(f"pub {a}: {x}" for a, x in zip(names, f))} }}\npub fn b{j}() -> B{j} {{ B{j} {{ {", ".join(f"{a}: {x}" for a, x in zip(names, d))} }} }}\n'
    return o + '}\n'


def main_rs(programs, rt_path):
    o = '#![allow(warnings)]\n#[path = "%s"]\npub mod rt;\n' % rt_path
    o += ''.join(rust_program(p, n) for n, p in programs)
    o += 'fn main() { rt::main(&[\n'
    for n, p in programs:
        for j, b in enumerate(p.backends):
            o += f'    ("p{n}b{j}", rt::dump::<p{n}::B{j}>, |w, r| rt::serve(p{n}::b{j}(), w, r)),\n'
    o += '], &[\n'
    for n, p in programs:
        for i, x in enumerate(p.ns):
            o += f'    ("p{n}n{i}", rt::members::<p{n}::{ns_path(p, i, None)}>),\n'
    return o + ']) }\n'


def describe(p, n):
    return dict(key=p.key, id=f'p{n}', ns=[client_ns(p, i) for i in range(len(p.ns))], types=p.types, methods=p.methods, backends=p.backends)
