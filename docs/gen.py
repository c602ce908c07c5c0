"""C17: types with every documentation text over an alphabet, next to the same types without any."""
import itertools, json

# (name, text); together they are every way a text could end, nest or pretend to be a comment, or be code
FRAGMENTS = ['*/', '/*', '//', '\n', '`', '${x}', '\\', '"', "'", '}', '{', 'export const T = 1;', '*', '/', '*\\/', '/**', '\u2028', '\r', '@ts-ignore', 'é', ' ', '<!--', '-->', '#', ';', '///', '@ts-expect-error', '\t', '\r\n', '\\u002a/', '"#', '{}', '{0}', '%s', '\u200d', '@ts-nocheck', '@deprecated', '\0']
CORE = FRAGMENTS[:18]
FORMS = ['named', 'tuple', 'newtype', 'enum', 'tagged', 'unitlike', 'iface']


def texts(tier):
    """(how the text is written, pieces): 'one' = one attribute, 'many' = an attribute per piece, 'line' = /// comments, 'block' = a /** */ comment"""
    out = [('one', ()), ('none', ()), ('many', ('', ''))]
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        a = FRAGMENTS if n < 3 else CORE[:8] if tier == 'quick' else CORE if n == 3 else CORE[:8]
        for c in itertools.product(a, repeat=n):
            out.append(('one', c))
            if n == 2 or (n == 3 and tier != 'quick'):
                out.append(('many', c))
    # around ordinary words
    for f in FRAGMENTS:
        for c in (('Some ', f, ' text'), (f, 'text'), ('text', f), ('first line\nsecond ', f, ' line\nthird')):
            out.append(('one', c))
        out.append(('many', ('first line', f, 'last line')))
        out.append(('many', (f, '', f)))
        if not any(x in f for x in '\n\r\0\u2028'):
            out.append(('line', ('first', f, 'last ' + f)))
            if '*/' not in f and '/*' not in f and f != '*' and f != '/':
                out.append(('block', ('first', f, 'last ' + f)))
    return out


def lit(s):
    return '"' + ''.join({'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\0': '\\0'}.get(c, c if ' ' <= c < '\x7f' else f'\\u{{{ord(c):x}}}') for c in s) + '"'


def attrs(how, pieces):
    if how == 'none':
        return ''
    if how == 'one':
        return f'#[doc = {lit("".join(pieces))}]\n'
    if how == 'many':
        return ''.join(f'#[doc = {lit(p)}]\n' for p in pieces)
    if how == 'line':
        return ''.join(f'/// {p}\n' for p in pieces)
    return '/**\n' + ''.join(f' * {p}\n' for p in pieces) + ' */\n'


def lines(how, pieces):
    """the lines of the text that a reader of the module must find"""
    t = ''.join(pieces) if how == 'one' else '\n'.join(pieces) if how != 'none' else ''
    return t


def body(form, i, inner=''):
    return {
        'named': f'pub struct T{i} {{ {inner}pub a: u8, {inner}pub b: Option<String> }}',
        'tuple': f'pub struct T{i}({inner}pub u8, {inner}pub String);',
        'newtype': f'pub struct T{i}({inner}pub Vec<u8>);',
        'enum': f'pub enum T{i} {{ {inner}A, {inner}B({inner}u8), {inner}C {{ {inner}a: u8 }} }}',
        'tagged': f'#[serde(tag = "t", content = "c")]\npub enum T{i} {{ {inner}A, {inner}B({inner}u8), {inner}C {{ {inner}a: u8 }} }}',
        'unitlike': f'pub struct T{i} {{ {inner}pub next: Option<Box<T{i}>> }}',
        'iface': f'pub enum T{i} {{ {inner}A, {inner}B }}',
    }[form]


def plan(tier):
    ts = texts(tier)
    out = []
    for k, (how, pieces) in enumerate(ts):
        # every form for the short texts, the forms in turn for the others
        fs = FORMS if len(pieces) <= 1 else [FORMS[k % 7], FORMS[(k + 3) % 7]] if len(pieces) == 2 else [FORMS[k % 7]]
        for f in fs:
            out.append(dict(how=how, pieces=pieces, form=f, inner=False))
    # the same texts on fields, variants, methods and namespaces: they are not carried, and change nothing
    for how, pieces in ts:
        if len(pieces) == 1 or (len(pieces) == 3 and pieces[0] == 'Some '):
            for f in FORMS:
                out.append(dict(how=how, pieces=pieces, form=f, inner=True))
    for i, d in enumerate(out):
        d['i'] = i
    return out


def main_rs(chunks):
    """chunks: [(number, items)]; each chunk is a backend with a namespace of documented types, and a twin without"""
    o = '#![allow(warnings)]\nuse zod::rpc::Backend as _;\n'
    keys = []
    for c, items in chunks:
        for twin in ('d', 'u'):
            doc = twin == 'd'
            nsdoc = next((attrs(x['how'], x['pieces']) for x in items if x['inner'] and x['how'] == 'one'), '') if doc else ''
            o += f'pub mod {twin}{c} {{\n{nsdoc}#[derive(zod::Namespace)]\n#[namespace(name = "N{c}{twin}")]\npub struct Ns;\n{nsdoc}#[zod::rpc::namespace]\nimpl Ns {{\n{nsdoc}pub async fn get(&mut self, n: u8) -> u8 {{ n }}\n{nsdoc}pub fn all(&mut self, n: u8) -> impl futures::Stream<Item = u8> {{ futures::stream::iter(vec![n]) }}\n}}\n'
            for x in items:
                a = attrs(x['how'], x['pieces']) if doc else ''
                o += (a if not x['inner'] else '') + f'#[derive(zod::Zod, serde::Serialize)]\n#[zod(namespace = "Ns")]\n' + body(x['form'], x['i'], a if x['inner'] else '') + '\n'
            o += f'{nsdoc}#[derive(zod::rpc::Backend)]\npub struct B({nsdoc}pub Ns);\n}}\n'
            keys.append(f'("{twin}{c}", {twin}{c}::B::generate::<zod::rpc::clients::WebsocketClient> as fn() -> String)')
    o += 'fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n for (k, f) in [' + ', '.join(keys) + '] {\n println!("{}", match std::panic::catch_unwind(f) { Ok(m) => serde_json::json!({"key": k, "module": m}), Err(_) => serde_json::json!({"key": k, "panic": true}) });\n }\n}\n'
    return o
