"""C18: declarations (methods, types, namespaces, backends) and whether they should be accepted."""
import itertools, re, zlib

HEAD = '''#![allow(warnings)]
pub mod common {
    pub use std::{collections::*, pin::Pin, marker::PhantomData, future::Future};
    pub use serde::{Serialize, Deserialize};
    pub use futures::{Stream, StreamExt};
    #[derive(zod::Namespace)]
    #[namespace(name = "Common")]
    pub struct Cns;
    #[zod::rpc::namespace]
    impl Cns {}
    #[derive(zod::Zod, Serialize, Deserialize, Debug, Default)]
    #[zod(namespace = "Cns")]
    pub struct User { pub a: u8 }
    #[derive(Serialize, Deserialize, Debug, Default)]
    pub struct NotZod { pub a: u8 }
    pub struct Plain;
    #[derive(zod::Zod, Serialize, Deserialize)]
    #[zod(namespace = "Cns")]
    pub struct Bare { pub a: u8 }
}
'''
STREAM = 'futures::stream::iter(vec![])'


class Decl:
    def __init__(self, key, ok, text, members=(), backend=False):
        """members: what the client must have if it is accepted; backend: the text declares `pub struct B`"""
        self.key, self.ok, self.text, self.members, self.backend = key, ok, text, list(members), backend


def ns(methods, extra='', head='#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns;\n', mac='#[zod::rpc::namespace]\nimpl Ns'):
    return f'{head}{mac} {{\n{methods}\n}}\n{extra}#[derive(zod::rpc::Backend)]\npub struct B(pub Ns, pub Cns);\n'


# receiver -> fine
RECV = {'&mut self': 1, '&self': 0, 'self': 0, 'mut self': 0, "&'a mut self": 0, "&'a self": 0, '': 0}
# return type -> (fine when async, fine when not async, an expression of it)
RET = {
    '': (1, 0, '()'), 'u8': (1, 0, '0'), '()': (1, 0, '()'), 'Vec<u8>': (1, 0, 'vec![]'), 'User': (1, 0, 'Default::default()'), 'Option<User>': (1, 0, 'None'), 'Result<User, String>': (1, 0, 'Err(String::new())'), '(u8, User)': (1, 0, 'Default::default()'), 'HashMap<String, User>': (1, 0, 'Default::default()'),
    'impl Stream<Item = u8>': (0, 1, STREAM), 'impl Stream<Item = User> + Send': (0, 1, STREAM), "impl Stream<Item = Result<u8, String>> + Send + 'static": (0, 1, STREAM), 'Pin<Box<dyn Stream<Item = u8> + Send>>': (0, 1, f'Box::pin({STREAM})'), "futures::stream::BoxStream<'static, User>": (0, 1, f'Box::pin({STREAM})'), 'Box<dyn Stream<Item = u8> + Send + Unpin>': (0, 1, f'Box::new({STREAM})'), 'futures::stream::Pending<u8>': (0, 1, 'futures::stream::pending()'), 'futures::stream::Iter<std::vec::IntoIter<u8>>': (0, 1, STREAM),
    'Bare': (1, 0, 'Bare { a: 0 }'), 'Vec<Bare>': (1, 0, 'vec![]'), 'impl Stream<Item = Bare>': (0, 1, STREAM), "futures::stream::BoxStream<'static, Vec<Bare>>": (0, 1, f'Box::pin({STREAM})'), 'std::rc::Rc<u8>': (0, 0, '0.into()'), 'Pin<Box<dyn Stream<Item = std::rc::Rc<u8>> + Send>>': (0, 0, f'Box::pin({STREAM})'),
    'Pin<Box<dyn Stream<Item = u8>>>': (0, 0, f'Box::pin({STREAM})'), 'impl Stream<Item = NotZod>': (0, 0, STREAM), 'futures::stream::Pending<NotZod>': (0, 0, 'futures::stream::pending()'), 'NotZod': (0, 0, 'Default::default()'), 'Vec<NotZod>': (0, 0, 'vec![]'), 'Result<NotZod, String>': (0, 0, 'Err(String::new())'), 'Result<u8, NotZod>': (0, 0, 'Ok(0)'), 'impl Iterator<Item = u8>': (0, 0, 'vec![].into_iter()'), 'impl Future<Output = u8>': (0, 0, 'async { 0 }'), 'impl Serialize': (0, 0, '0u8'), 'Option<impl Stream<Item = u8>>': (0, 0, f'Some({STREAM})'), '(impl Stream<Item = u8>, u8)': (0, 0, f'({STREAM}, 0)'), 'Plain': (0, 0, 'Plain'), 'Box<dyn Fn() -> u8 + Send>': (0, 0, 'Box::new(|| 0)'), 'Ns': (0, 0, 'Ns'), 'Self': (0, 0, 'Ns'), '*const u8': (0, 0, 'std::ptr::null()'),
}
# arguments -> fine
ARGS = {
    '': 1, 'a: u8': 1, 'a: u8, b: String': 1, 'u: User': 1, 'o: Option<Vec<User>>, m: HashMap<String, u8>': 1, 'mut a: u8': 1, 'r#type: u8, r#fn: User': 1, 'a: (u8, User)': 1, 'a: [u8; 3]': 1, 'a: Box<User>': 1, ', '.join(f'a{i}: u8' for i in range(12)): 1, 'a: (u8,), b: ()': 1,
    'a: Bare': 1, 'a: Vec<Option<Bare>>, b: (Bare, u8)': 1, 'a: std::rc::Rc<u8>': 0,
    'a: NotZod': 0, 'a: u8, b: Vec<NotZod>': 0, '(a, b): (u8, u8)': 0, '_: u8': 0, '&a: &u8': 0, 'a: &str': 0, 'a: &User': 0, 'a: &mut u8': 0, 'a: impl Into<u8>': 0, 'a: fn(u8)': 0, 'User { a }: User': 0, '[a, b]: [u8; 2]': 0, 'ref a: u8': 1, 'a @ 0..=255: u8': 1, 'a: Plain': 0, 'a: u8, _: u8': 0, '(a): u8': None, 'a: Ns': 0,
}
RESERVED = 'delete new class function import export default null this with var void switch throw catch finally debugger instanceof extends implements interface package private protected public arguments eval z export'.split()
RAW_RESERVED = 'enum false true if else for while return in break continue const let static try typeof yield await super'.split()
FINE_NAMES = 'get set call args request subscribe type_ of as_ r#type r#match r#fn r#async r#mod r#use r#where r#loop r#move r#impl r#trait r#struct declare module namespace require exports clone fmt id sender ctx a _a __ A Über undefined_ then constructor name length prototype toString string number any object'.split()


def method(name, recv, is_async, ret, args):
    e = RET[ret][2]
    ps = ', '.join(x for x in (recv, args) if x)
    g = "<'a>" if "'a" in recv else ''
    return f'pub {"async " if is_async else ""}fn {name}{g}({ps}){" -> " + ret if ret else ""} {{ {e} }}'


def method_ok(recv, is_async, ret, args):
    return bool(RECV[recv] and RET[ret][0 if is_async else 1] and ARGS[args])


def methods(tier):
    T = tier == 'thorough'
    out = []
    seen = set()

    def add(recv, a, ret, args):
        k = (recv, a, ret, args)
        if k in seen or ARGS[args] is None:
            return
        if not recv and ret in ('Self',) and False:
            return
        seen.add(k)
        out.append(Decl(f'method|{recv}|{"async" if a else "sync"}|{ret}|{args}', method_ok(*k), ns(method('run', *k)), ['Ns@.run'], True))
    for a in (1, 0):
        for ret in RET:
            for recv in RECV:
                for args in (ARGS if T else ('', 'a: u8, b: String', 'a: NotZod', '_: u8')):
                    add(recv, a, ret, args)
        for args in ARGS:
            for ret in ('', 'u8', 'impl Stream<Item = u8>', 'Pin<Box<dyn Stream<Item = u8> + Send>>', 'User', 'NotZod', 'impl Stream<Item = NotZod>'):
                for recv in (RECV if T else ('&mut self', '&self', '')):
                    add(recv, a, ret, args)
    # a namespace that can be copied works without a reference, too
    for head in ('#[derive(zod::Namespace, Clone, Copy)]', '#[derive(zod::Namespace, Default)]'):
        for recv in RECV:
            for a, ret in ((1, ''), (1, 'u8'), (0, 'impl Stream<Item = u8>'), (0, "futures::stream::BoxStream<'static, User>"), (0, 'futures::stream::Pending<u8>')):
                for args in ('', 'a: u8', 'a: u8, b: String'):
                    out.append(Decl(f'copy|{head[9:-1]}|{recv}|{a}|{ret}|{args}', bool(RECV[recv]), ns(method('run', recv, a, ret, args), head=head + '\n#[namespace(name = "Ns@")]\npub struct Ns;\n'), ['Ns@.run'], bool(RECV[recv])))
    # names
    for n in RESERVED + ['r#' + x for x in RAW_RESERVED if x not in ('super',)]:
        for m in ('pub async fn {}(&mut self) -> u8 {{ 0 }}', f'pub fn {{}}(&mut self) -> impl Stream<Item = u8> {{{{ {STREAM} }}}}'):
            out.append(Decl(f'methodname|{n}|{m[:9]}', False, ns(m.format(n))))
    for n in FINE_NAMES:
        for m in ('pub async fn {}(&mut self) -> u8 {{ 0 }}', f'pub fn {{}}(&mut self) -> impl Stream<Item = u8> {{{{ {STREAM} }}}}'):
            out.append(Decl(f'methodname|{n}|{m[:9]}', True, ns(m.format(n)), ['Ns@.' + n.removeprefix('r#')], True))
    # modifiers
    ok = ['async fn m(&mut self) {}', 'pub(crate) async fn m(&mut self) {}', '#[inline] pub async fn m(&mut self) {}', '/// docs\npub async fn m(&mut self) {}', 'pub const N: usize = 3;\npub async fn m(&mut self, a: [u8; Self::N]) {}', 'pub const N: usize = 3;\npub async fn m(&mut self, a: Vec<(u8, [User; Self::N])>) -> [u8; Self::N] { [0; Self::N] }', f'pub const N: usize = 3;\npub fn m(&mut self, a: [u8; Self::N]) -> impl Stream<Item = [u8; Self::N]> {{ {STREAM} }}', f'pub const N: usize = 3;\npub fn m(&mut self) -> Pin<Box<dyn Stream<Item = [u8; Self::N]> + Send>> {{ Box::pin({STREAM}) }}', '', 'async fn m(&mut self) where u8: Copy {}', f'fn m(&mut self) -> impl Stream<Item = u8> where u8: Copy {{ {STREAM} }}', 'async fn m(&mut self, #[allow(unused)] a: u8) {}', f'#[allow(non_snake_case)] fn m(&mut self, A: u8) -> impl Stream<Item = u8> {{ {STREAM} }}', 'async fn a(&mut self) {} async fn b(&mut self) {} fn c(&mut self) -> impl Stream<Item = u8> { ' + STREAM + ' }']
    bad = ['async fn m<T>(&mut self) {}', 'async fn m<T: Default + Into<u8>>(&mut self, t: T) {}', 'async fn m<const N: usize>(&mut self) {}', 'async fn m<const N: usize>(&mut self, a: [u8; N]) {}', f'fn m<T>(&mut self) -> impl Stream<Item = u8> {{ {STREAM} }}', 'async unsafe fn m(&mut self) {}', f'unsafe fn m(&mut self) -> impl Stream<Item = u8> {{ {STREAM} }}', 'async fn m() {}', 'fn m() {}', 'fn new() -> Self { Ns }', 'async fn a(&mut self) {} fn helper(&mut self) {}', 'async fn a(&mut self) {} async fn b(&self) {}', 'fn helper(&self) -> u8 { 0 } async fn a(&mut self) {}', "async fn m<'a>(&mut self, a: &'a str) {}", "async fn m<'a>(&'a mut self, a: u8) {}", 'fn m(&mut self) -> u8 { 0 }', 'async fn m(&mut self) -> impl Stream<Item = u8> { ' + STREAM + ' }']
    for x in ok:
        out.append(Decl(f'impl|{x}', True, ns(x), ['Ns@.' + f for f in re.findall(r'fn (\w+)', x)], True))
    for x in bad:
        out.append(Decl(f'impl|{x}', False, ns(x)))
    # pairs of methods
    pool = [('async fn {}(&mut self) {{}}', 1), ('async fn {}(&mut self, u: User) -> User {{ u }}', 1), (f'fn {{}}(&mut self) -> impl Stream<Item = u8> {{{{ {STREAM} }}}}', 1), ('fn {}(&mut self) -> u8 {{ 0 }}', 0), ('async fn {}(&self) {{}}', 0), ('async fn {}(&mut self, n: NotZod) {{}}', 0), ('async fn {}() {{}}', 0), ('async fn {}(self) {{}}', 0), ('async fn {}(&mut self, (a, b): (u8, u8)) {{}}', 0), (f'async fn {{}}(&mut self) -> impl Stream<Item = u8> {{{{ {STREAM} }}}}', 0)]
    for n in (2, 3) if T else (2,):
        for c in itertools.product(pool, repeat=n):
            good = all(x[1] for x in c)
            out.append(Decl('pair|' + '; '.join(x[0] for x in c), good, ns('\n'.join(x[0].format('abc'[i]) for i, x in enumerate(c))), ['Ns@.' + 'abc'[i] for i in range(n)], good))
    return out


NA = '#[derive(zod::Namespace)]\n#[namespace(name = "Na@")]\npub struct Na;\n#[zod::rpc::namespace]\nimpl Na {}\n#[derive(zod::Namespace)]\n#[namespace(name = "Nb@")]\npub struct Nb;\n#[zod::rpc::namespace]\nimpl Nb {}\n#[derive(zod::rpc::Backend)]\npub struct B(pub Na, pub Nb, pub Cns);\n'
D = '#[derive(zod::Zod, Serialize)]\n'
DD = '#[derive(zod::Zod, Serialize, Deserialize)]\n'
# shape -> fine
SHAPES = {
    'struct T { pub a: u8 }': 1, 'struct T { pub a: u8, pub b: Vec<Option<String>> }': 1, 'struct T(pub u8);': 1, 'struct T(pub u8, pub String);': 1, 'struct T { pub u: User }': 1, 'struct T(pub Vec<User>, pub Result<u8, User>);': 1, 'struct T { pub t: Option<Box<T>> }': 1, 'struct T(pub Vec<T>);': 1, 'struct T { pub r#type: u8 }': 1,
    'enum T { A }': 1, 'enum T { A, B }': 1, 'enum T { A(u8) }': 1, 'enum T { A(u8, String), B }': 1, 'enum T { A { a: u8 }, B(User), C }': 1, 'enum T { A {} }': 1, 'enum T { r#type, B }': 1, 'enum T { A = 3, B = 5 }': 1, 'enum T { A(Box<T>), B }': 1,
    'struct T;': 0, 'enum T {}': 0, 'union T { a: u8, b: i8 }': 0, 'struct T { pub a: NotZod }': 0, 'struct T(pub NotZod);': 0, 'struct T(pub u8, pub Vec<NotZod>);': 0, 'enum T { A(NotZod) }': 0, 'enum T { A { a: NotZod }, B }': 0, 'enum T { A, B(u8, NotZod) }': 0, 'struct T { pub a: Plain }': 0, 'struct T { pub f: fn() -> u8 }': 0, 'struct T { pub a: Na }': 0,
}
ENUM_TAGS = {'': None, '#[serde(tag = "t")]\n': 'int', '#[serde(tag = "t", content = "c")]\n': 'adj', '#[serde(untagged)]\n': 'unt'}
NSATTR = {'#[zod(namespace = "Na")]\n': 1, '#[zod(namespace = "self::Na")]\n': 1, '#[zod(namespace = "super::common::Cns")]\n': 1, '': 0, '#[zod()]\n': 0, '#[zod(namespace = "Missing")]\n': 0, '#[zod(namespace = "User")]\n': 0, '#[zod(namespace = "Plain")]\n': 0, '#[zod(namespace = "")]\n': 0, '#[zod(namespace)]\n': 0, '#[zod(namespace = 3)]\n': 0, '#[zod(name = "Na")]\n': 0, '#[zod(namespace = "Na", other = "x")]\n': 0, '#[zod(namespace = "Na")]\n#[zod(namespace = "Nb")]\n': 0, '#[zod(namespace = "Na", namespace = "Nb")]\n': 0, '#[zod(namespace = "not a path")]\n': 0, '#[zod(namespace = "nowhere::Na")]\n': 0}
BAD_TYPE_NAMES = 'as undefined delete new class function import export default null this with var void switch throw catch finally debugger instanceof extends implements interface package private protected public arguments eval z any bigint boolean never number object string symbol unknown if else for while do return in break continue const let static try typeof yield await super enum false true case'.split() + ['', 'a b', 'a-b', '1a', 'a.b', 'a"b', "a'b", 'a`b', 'a/*', 'a//', 'a\\n', 'a;b', '{', '(', '<T>', 'A<B>', '*', ' ', 'T ', '#a', '@a', '\u2028', 'a\u2028b', '日 本']
OK_TYPE_NAMES = 'a T_ _ __ $ $a a$ async self crate dyn fn match type of get set Array_ Über 日本 नमस्ते A1 _1 request T Schema module namespace declare abstract Self move ref mod use where loop impl trait struct unsafe extern virtual macro box priv final override become'.split()


def types(tier):
    T = tier == 'thorough'
    out = []
    N1 = '#[zod(namespace = "Na")]\n'
    for s, ok in SHAPES.items():
        for tag in ENUM_TAGS if s.startswith('enum') else ('',):
            good = ok
            kind = ENUM_TAGS[tag]
            if kind == 'int' and re.search(r'\(u8, ', s):
                good = 0  # serde: a tagged tuple variant
            if kind == 'int' and 'A(u8)' in s:
                continue  # compiles with serde, and fails at run time
            for nsa, nok in NSATTR.items():
                if not T and tag and nsa != N1 and nok:
                    continue
                n = 'Common' if 'Cns' in nsa else 'Na@'
                name = f'T@' if 'Cns' in nsa else 'T'
                text = re.sub(r'\bT\b', name + ' ', s).replace('@  ', '@ ') if name != 'T' else s
                out.append(Decl(f'type|{tag.strip()}|{nsa.strip()}|{s}', bool(good and nok), NA + DD + nsa + tag + 'pub ' + text + '\n', [f'{n}.{name}'], bool(good and nok)))
    # ways to name the namespace
    for imp, path in (('use super::Na;', 'Na'), ('use super::Na as X;', 'X'), ('use super::*;', 'Na'), ('type X = super::Na;', 'X'), ('pub mod deep { pub use super::super::Na; }', 'deep::Na'), ('', 'super::Na')):
        for s in ('struct T { pub a: u8 }', 'struct T(pub u8, pub Vec<T>);', 'enum T { A, B(Box<T>) }'):
            for two in (0, 1, 2):
                t = NA + f'pub mod inner {{ {imp}\nuse super::super::common::*;\n' + DD + f'#[zod(namespace = "{path}")]\npub {s}\n}}\n'
                if two:
                    t += DD + f'#[zod(namespace = "{"Nb" if two == 1 else "Na"}")]\npub {s}\n'
                out.append(Decl(f'import|{imp}|{path}|{s}|{two}', two != 2, t, ['Na@.T'] + (['Nb@.T'] if two == 1 else []), two != 2))
    # skipped fields need no schema
    for s in ['struct T { #[serde(skip)] a: NotZod, b: u8 }', 'struct T(u8, #[serde(skip)] NotZod);', 'enum T { A { #[serde(skip)] a: NotZod, b: u8 } }', 'enum T { #[serde(skip)] A(NotZod), B }', 'enum T { A(u8, #[serde(skip)] NotZod) }']:
        out.append(Decl(f'skip|{s}', True, NA + DD + N1 + 'pub ' + s + '\n', ['Na@.T'], True))
    # defaulted fields of tuples
    for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5, 6):
        for pat in itertools.product((0, 1), repeat=n):
            f = ', '.join(('#[serde(default)] ' if d else '') + t for d, t in zip(pat, ['u8', 'String', 'Option<u8>', 'Vec<User>', 'bool', 'u8']))
            good = all(not a or b for a, b in zip(pat, pat[1:]))
            for dd in (D, DD, DD.replace('Serialize, ', '')):
                out.append(Decl(f'defaults|struct|{dd[9:-3]}|{pat}', good, NA + dd + N1 + f'pub struct T({f});\n', ['Na@.T'], good))
            for tag in ENUM_TAGS:
                if ENUM_TAGS[tag] == 'int' and n != 1:
                    continue
                if n == 1 and pat == (1,):
                    continue  # serde: default on a newtype variant
                if n == 1 and ENUM_TAGS[tag] == 'int':
                    continue
                if not good:
                    continue  # serde takes those, and they are no different from variants without
                out.append(Decl(f'defaults|enum|{tag.strip()}|{pat}', good, NA + DD + N1 + tag + f'pub enum T {{ A({f}), B }}\n', ['Na@.T'], good))
            sk = ', '.join(('#[serde(default = "Default::default")] ' if d else '') + t for d, t in zip(pat, ['u8', 'String', 'Option<u8>', 'Vec<User>', 'bool', 'u8']))
            if sum(pat):
                out.append(Decl(f'defaults|path|{pat}', good, NA + DD + N1 + f'pub struct T({sk});\n', ['Na@.T'], good))
    # two types: names and namespaces
    rens = [(None, None), ('T', None), (None, 'T'), ('X', 'X'), ('X', 'Y'), ('U', None), ('T', 'U'), ('U', 'T')]
    for s1, s2 in itertools.product(['struct {} {{ pub a: u8 }}', 'struct {}(pub u8, pub u8);', 'enum {} {{ A, B }}'], repeat=2):
        for same_rust in (True, False):
            for r1, r2 in rens:
                for n1, n2 in (('Na', 'Na'), ('Na', 'Nb'), ('Nb', 'Na')):
                    a, b = ('T', 'T') if same_rust else ('T', 'U')
                    c1, c2 = r1 or a, r2 or b
                    good = n1 != n2 or c1 != c2
                    at = lambda r: f'#[serde(rename = "{r}")]\n' if r else ''
                    t = NA + DD + f'#[zod(namespace = "{n1}")]\n{at(r1)}pub {s1.format(a)}\npub mod inner {{ use super::*;\n' + DD + f'#[zod(namespace = "super::{n2}")]\n{at(r2)}pub {s2.format(b)}\n}}\n'
                    out.append(Decl(f'two|{s1}|{s2}|{a}{b}|{r1} {r2}|{n1} {n2}', good, t, [f'{n1}@.{c1}', f'{n2}@.{c2}'], good))
    # names for one direction only
    for d1, d2, good in [('serialize', 'serialize', True), ('deserialize', 'deserialize', False), ('serialize', 'deserialize', True), ('deserialize', 'serialize', True)]:
        t = NA + DD + N1 + f'#[serde(rename({d1} = "X"))]\npub struct T {{ a: u8 }}\n' + DD + N1 + f'#[serde(rename({d2} = "X"))]\npub struct U {{ a: u8 }}\n'
        out.append(Decl(f'directions|{d1} {d2}', good, t, [], good))
    # names
    for n in BAD_TYPE_NAMES:
        q = n.replace('\\', '\\\\').replace('"', '\\"')
        for s in ('struct T { pub a: u8 }', 'enum T { A, B }'):
            out.append(Decl(f'typename|{n!a}|{s[:6]}', False, NA + DD + N1 + f'#[serde(rename = "{q}")]\npub {s}\n'))
    for n in OK_TYPE_NAMES:
        for s in ('struct T { pub a: u8 }', 'enum T { A, B }'):
            out.append(Decl(f'typename|{n!a}|{s[:6]}', True, NA + DD + N1 + f'#[serde(rename = "{n}")]\npub {s}\n', [f'Na@.{n}'], True))
    # pairs of names that look alike are different names
    for a, b in itertools.permutations(['a$', 'a_', '$a', '_a', '__a', 'async', '__async', 'self', '__self', 'A', 'a', '__', '_', '$', 'a·', '__a·', 'a·_', 'a$$', 'a·$', '__a$', '____a', 'crate', '__crate', '____crate', 'r_self'], 2):
        out.append(Decl(f'alike|{a}|{b}', True, NA + DD + N1 + f'#[serde(rename = "{a}")]\npub struct T {{ a: u8 }}\n' + DD + N1 + f'#[serde(rename = "{b}")]\npub struct U {{ a: u8 }}\n', [f'Na@.{a}', f'Na@.{b}'], True))
    # generic types
    for s in ['struct T<X> { pub a: X }', 'struct T<X: Clone>(pub Vec<X>);', 'enum T<X> { A(X), B }', "struct T<'a> { pub a: std::borrow::Cow<'a, str> }", 'struct T<const N: usize> { pub a: [u8; N] }', "enum T<'a> { A(&'a str) }", 'struct T<X>(PhantomData<X>, pub u8);', 'struct T<X = u8> { pub a: X }']:
        out.append(Decl(f'generic|{s}', False, NA + D + N1 + 'pub ' + s + '\n'))
    return out


def namespaces(tier):
    out = []
    M = 'pub async fn get(&mut self) {}'
    for s, ok in {'struct Ns;': 1, 'struct Ns {}': 1, 'struct Ns();': 1, 'struct Ns { pub a: u8 }': 1, 'struct Ns(pub u8, pub Plain);': 1, 'struct Ns { f: Box<dyn Fn() -> u8 + Send> }': 1, 'enum Ns { A, B }': 1, 'union Ns { a: u8 }': 0}.items():
        out.append(Decl(f'ns|{s}', bool(ok), ns(M, head='#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub ' + s + '\n'), ['Ns@.get'], bool(ok)))
    for n in 'delete new class function import export default null this with var void eval arguments z enum if'.split() + ['', 'a b', 'a-b', '1a', 'a"b', 'a.', '.a', 'a..b', 'a.delete', 'delete.a', 'a;', '{', ' a', '/*', 'a.1']:
        q = n.replace('"', '\\"')
        out.append(Decl(f'nsname|{n!a}', False, ns(M, head=f'#[derive(zod::Namespace)]\n#[namespace(name = "{q}")]\npub struct Ns;\n')))
    for n in ['a@', 'A@', '_@', '$@', 'type@', 'a@.b', 'a@.b.c', 'Ü@', 'async@.of', '__@', 'string@', 'self@.crate']:
        out.append(Decl(f'nsname|{n}', True, ns(M, head=f'#[derive(zod::Namespace)]\n#[namespace(name = "{n}")]\npub struct Ns;\n'), [n + '.get'], True))
    for a in ['#[namespace()]', '#[namespace(name)]', '#[namespace(name = 3)]', '#[namespace(other = "x")]', '#[namespace(name = "a", name = "b")]', '#[namespace = "a"]', '#[namespace(name = "a")]\n#[namespace(name = "b")]']:
        if a == '#[namespace()]':
            continue
        out.append(Decl(f'nsattr|{a}', False, ns(M, head=f'#[derive(zod::Namespace)]\n{a}\npub struct Ns;\n')))
    H = '#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns;\n'
    for k, t, ok in [
        ('twice', H + f'#[zod::rpc::namespace]\nimpl Ns {{ {M} }}\n#[zod::rpc::namespace]\nimpl Ns {{ pub async fn two(&mut self) {{}} }}\n', 0),
        ('beside', H + f'#[zod::rpc::namespace]\nimpl Ns {{ {M} }}\nimpl Ns {{ pub fn helper(&self) -> u8 {{ 0 }} }}\n', 1),
        ('not a namespace', f'pub struct Ns;\n#[zod::rpc::namespace]\nimpl Ns {{ {M} }}\n', 0),
        ('no impl', H, 0),
        ('generic', f'#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns<T>(T);\n#[zod::rpc::namespace]\nimpl<T> Ns<T> {{ {M} }}\n', 0),
        ('instance', f'#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns<T>(T);\n#[zod::rpc::namespace]\nimpl Ns<u8> {{ {M} }}\n', 0),
        ('trait', H + f'pub trait Tr {{ fn a(&self) -> u8; }}\n#[zod::rpc::namespace]\nimpl Tr for Ns {{ fn a(&self) -> u8 {{ 0 }} }}\n', 0),
    ]:
        out.append(Decl(f'nsimpl|{k}', bool(ok), t + '#[derive(zod::rpc::Backend)]\npub struct B(pub Ns, pub Cns);\n', ['Ns@.get'] if ok else [], bool(ok)))
    # backends
    P = ''.join(f'#[derive(zod::Namespace)]\n#[namespace(name = "{n}@")]\npub struct {n};\n#[zod::rpc::namespace]\nimpl {n} {{ {M} }}\n' for n in ('Na', 'Nb', 'Nc')) + 'pub mod inner { use super::*;\n#[derive(zod::Namespace)]\n#[namespace(name = "Inner@")]\npub struct Na;\n#[zod::rpc::namespace]\nimpl Na { ' + M + ' }\n#[derive(zod::Namespace)]\n#[namespace(name = "Na@")]\npub struct Same;\n#[zod::rpc::namespace]\nimpl Same { ' + M + ' }\n}\n'
    pool = {'Na': 'Na@', 'Nb': 'Nb@', 'inner::Na': 'Inner@', 'inner::Same': 'Na@', 'u8': None, 'Plain': None, 'User': None}
    for n in (0, 1, 2, 3):
        for c in itertools.product(pool, repeat=n):
            if n == 3 and (tier != 'thorough') and sum(pool[x] is None for x in c) > 1:
                continue
            names = [pool[x] for x in c]
            good = None not in names and len(set(names)) == len(names)
            styles = ['tuple', 'named'] if n else ['unit', 'tuple', 'named']
            for s in styles if n < 3 or tier == 'thorough' else styles[:1]:
                b = {'unit': ';', 'tuple': '(' + ', '.join('pub ' + x for x in c) + ');', 'named': '{ ' + ', '.join(f'pub f{i}: {x}' for i, x in enumerate(c)) + ' }'}[s]
                out.append(Decl(f'backend|{s}|{" ".join(c)}', good, P + f'#[derive(zod::rpc::Backend)]\npub struct B{b}\n', [x + '.get' for x in names] if good else [], good))
    for s in ['enum B { A(Na) }', 'enum B {}', 'union B { a: u8 }', 'struct B<T>(Na, PhantomData<T>);', 'struct B(Vec<Na>);', 'struct B(Box<Na>);', 'struct B((Na, Nb));', 'struct B(Na, fn());', 'struct B(Option<Na>);', "struct B<'a>(&'a mut Na);"]:
        out.append(Decl(f'backend|{s}', False, P + f'#[derive(zod::rpc::Backend)]\npub {s}\n'))
    return out


def in_macros(ds, tier):
    """the same declarations, written by a macro"""
    out = []
    for d in ds:
        k = d.key.split('|')[0]
        if not (k in ('impl', 'ns', 'nsimpl', 'skip', 'import', 'generic') or (k == 'method' and '|&mut self|' in d.key) or (k == 'type' and ('|#[zod(namespace = "Na")]|' in d.key or '||' in d.key)) or (k == 'backend' and d.key.count(' ') < 2) or d.key.startswith('pair|') and d.key.count(';') < 2):
            continue
        if tier != 'thorough' and k in ('method', 'pair', 'import') and zlib.crc32(d.key.encode()) % 3:
            continue
        for how, t in (('body', 'macro_rules! decl { () => {\n%s} }\ndecl!{}\n'), ('tokens', 'macro_rules! decl { ($($t:tt)*) => { $($t)* } }\ndecl!{\n%s}\n')):
            out.append(Decl(f'macro|{how}|{d.key}', d.ok, t % d.text, d.members, d.backend))
    return out


def fragments(tier):
    """parts of declarations that are arguments of a macro"""
    out = []
    use = 'macro_rules! decl { (%s) => {\n%s} }\ndecl!{ %s }\n'
    H = '#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns;\n#[zod::rpc::namespace]\nimpl Ns {\n'
    B = '\n}\n#[derive(zod::rpc::Backend)]\npub struct B(pub Ns, pub Cns);\n'
    for ret, (okA, okS, e) in RET.items():
        if not ret:
            continue
        for a in (1, 0):
            if 'impl ' in ret and ret.count('impl ') and not ret.startswith('impl '):
                continue
            m = f'pub {"async " if a else ""}fn run(&mut self) -> $s {{ {e} }}'
            out.append(Decl(f'fragment|ret|{"async" if a else "sync"}|{ret}', bool((okA, okS)[1 - a]), use % ('$s:ty', H + m + B, ret), ['Ns@.run'], True))
    for t in ['u8', 'User', 'Vec<u8>', 'Option<User>', 'NotZod', 'Plain', 'Bare', '(u8, User)', '[u8; 2]', '()', '&str', 'std::rc::Rc<u8>']:
        ok = t not in ('NotZod', 'Plain', '&str', 'std::rc::Rc<u8>')
        for where, m, o in (('arg', 'pub async fn run(&mut self, a: $t, b: Vec<$t>) {}', ok), ('result', 'pub async fn run(&mut self) -> Vec<$t> { vec![] }', ok or t in ('&str', 'std::rc::Rc<u8>') and None), ('item', f'pub fn run(&mut self) -> impl Stream<Item = $t> {{ {STREAM} }}', ok or t == '&str' and None), ('boxed item', f'pub fn run(&mut self) -> Pin<Box<dyn Stream<Item = Vec<$t>> + Send>> {{ Box::pin({STREAM}) }}', ok or t == '&str' and None)):
            if o is None:
                continue
            out.append(Decl(f'fragment|{where}|{t}', o, use % ('$t:ty', H + m + B, t), ['Ns@.run'], True))
    for t, ok in [('u8', 1), ('User', 1), ('Vec<Option<User>>', 1), ('NotZod', 0), ('Plain', 0), ('(u8, User)', 1), ('Bare', 1)]:
        for s in ['struct T { pub a: $t }', 'struct T($t);', 'struct T(pub u8, pub Vec<$t>);', 'enum T { A($t), B }', 'enum T { A { a: $t }, B }', 'enum T { A(u8, $t) }']:
            for tag in ENUM_TAGS if s.startswith('enum') and t == 'User' else ('',):
                if ENUM_TAGS[tag] == 'int' and '(u8, ' in s:
                    continue
                out.append(Decl(f'fragment|field|{tag.strip()}|{s}|{t}', bool(ok), use % ('$t:ty', NA + DD + '#[zod(namespace = "Na")]\n' + tag + 'pub ' + s + '\n', t), ['Na@.T'], bool(ok)))
    # names
    for s in ['struct $n { pub $f: u8 }', 'struct $n(pub u8, pub Vec<$n>);', 'enum $n { $v, B }', 'enum $n { $v(u8), B }', 'enum $n { $v { $f: u8 } }']:
        for n, f, v in [('T', 'f', 'V'), ('r#type', 'r#fn', 'r#match'), ('async_', 'r#in', 'A')]:
            out.append(Decl(f'fragment|names|{s}|{n} {f} {v}', True, use % ('$n:ident, $f:ident, $v:ident', NA + DD + '#[zod(namespace = "Na")]\npub ' + s + '\n', f'{n}, {f}, {v}'), ['Na@.' + n.removeprefix('r#')], True))
    for m in ['pub async fn $m(&mut self, $a: u8) -> u8 { $a }', f'pub fn $m(&mut self, $a: u8) -> impl Stream<Item = u8> {{ {STREAM} }}', 'pub async fn $m(&mut self) {} pub async fn other(&mut self, $a: User) -> User { $a }']:
        for n, a in [('run', 'a'), ('r#type', 'r#fn'), ('get', 'self_')]:
            out.append(Decl(f'fragment|method names|{m}|{n} {a}', True, use % ('$m:ident, $a:ident', H + m + B, f'{n}, {a}'), ['Ns@.' + n.removeprefix('r#')], True))
        for n in ('delete', 'r#enum', 'function'):
            out.append(Decl(f'fragment|method names|{m}|{n}', False, use % ('$m:ident, $a:ident', H + m + B, f'{n}, a')))
    for ns_, path, ok in [('$n', 'Na', 1), ('$n', 'super::common::Cns', None), ('$n', 'Plain', 0)]:
        if ok is not None:
            out.append(Decl(f'fragment|backend|{path}', bool(ok), use % ('$t:ty', NA.rsplit('#[derive', 1)[0] + '#[derive(zod::rpc::Backend)]\npub struct B(pub $t);\n', path), [], bool(ok)))
    for lit, ok in (('"Ns@"', 1), ('"a b"', 0), ('3', 0)):
        out.append(Decl(f'fragment|name|{lit}', bool(ok), use % ('$l:literal', H.replace('"Ns@"', '$l') + 'pub async fn run(&mut self) {}' + B, lit), ['Ns@.run'] if ok else [], bool(ok)))
    for lit, ok in (('"Na"', 1), ('"Plain"', 0), ('3', 0)):
        out.append(Decl(f'fragment|namespace|{lit}', bool(ok), use % ('$l:literal', NA + DD + '#[zod(namespace = $l)]\npub struct T { a: u8 }\n', lit), ['Na@.T'] if ok else [], bool(ok)))
    return out


def shadows(tier):
    """declarations in a module that gives names of the prelude another meaning"""
    out = []
    names = {
        'String': 'pub struct String;', 'Vec': 'pub struct Vec;', 'Box': 'pub struct Box;', 'Option': 'pub struct Option;', 'Result': 'pub type Result<T> = std::result::Result<T, u8>;', 'Some': 'pub struct Some;', 'None': 'pub const None: u8 = 0;', 'Ok': 'pub struct Ok;', 'Err': 'pub struct Err;',
        'std': 'pub mod std {}', 'core': 'pub mod core {}', 'vec!': 'macro_rules! vec { () => {} }', 'format!': 'macro_rules! format { () => {} }', 'Send': 'pub trait Send {}', 'Sync': 'pub trait Sync {}', 'Default': 'pub trait Default {}', 'Clone': 'pub trait Clone {}', 'Stream': 'pub struct Stream_;', 'Serialize': 'pub struct Schema;', 'Into': 'pub trait Into {}', 'ToString': 'pub trait ToString {}', 'IntoIterator': 'pub trait IntoIterator {}', 'Iterator': 'pub trait Iterator {}', 'Drop': 'pub trait Drop {}', 'usize': 'pub struct Usize;', 'Namespace': 'pub struct Namespace;', 'Request': 'pub struct Request;', 'Response': 'pub struct Response;', 'Backend': 'pub struct Backend;', 'Kind': 'pub struct Kind; pub struct Zod; pub struct Args; pub struct Req; pub struct ResponseSender; pub struct Error;',
    }
    H = '#[derive(zod::Namespace)]\n#[namespace(name = "Ns@")]\npub struct Ns;\n'
    N = H + '#[zod::rpc::namespace]\nimpl Ns {}\n'
    B = '#[derive(zod::rpc::Backend)]\npub struct B(pub Ns, pub super::common::Cns);\n'
    Z = '#[derive(zod::Zod)]\n#[zod(namespace = "Ns")]\npub '
    kinds = {
        'struct': N + B + Z + 'struct T { pub a: u8 }\n', 'tuple': N + B + Z + 'struct T(pub u8, pub bool);\n', 'newtype': N + B + Z + 'struct T(pub u8);\n',
        'unit': N + B + Z + 'enum T { A, B }\n', 'enum': N + B + Z + 'enum T { A(u8), B { b: u8 }, C, D(u8, u8) }\n', 'untagged': N + B + Z.replace('pub ', '#[serde(untagged)]\npub ').replace('zod::Zod', 'zod::Zod, serde::Serialize') + 'enum T { A(u8), B { b: u8 } }\n',
        'docs': N + B + Z.replace('pub ', '/// text\npub ') + 'struct T { /** more */ pub a: u8 }\n',
        'backend': N + B, 'method': H + '#[zod::rpc::namespace]\nimpl Ns { pub async fn get(&mut self, a: u8) -> u8 { a } }\n' + B,
        'stream': H + '#[zod::rpc::namespace]\nimpl Ns { pub fn get(&mut self, a: u8) -> ::futures::stream::Pending<u8> { ::futures::stream::pending() } }\n' + B,
        'stream result': H + '#[zod::rpc::namespace]\nimpl Ns { pub fn get(&mut self, a: u8) -> impl ::futures::Stream<Item = ::core::result::Result<u8, u8>> { ::futures::stream::pending() } }\n' + B,
    }
    for n, d in names.items():
        for k, t in kinds.items():
            m = ['Ns@.get'] if 'fn get' in t else ['Ns@.T'] if ' T' in t else []
            out.append(Decl(f'shadow|{n}|{k}', True, d + '\n' + t, m, True))
    return out


def universe(tier):
    out = methods(tier) + types(tier) + namespaces(tier)
    out += in_macros(out, tier) + fragments(tier) + shadows(tier)
    out = list({d.key: d for d in out}.values())
    for k, d in enumerate(out):
        d.k = k
        d.text = re.sub(r'(?<=[\w$])@', str(k), d.text)
        d.members = [m.replace('@', str(k)) for m in d.members]
    return out


def module(d):
    return f'pub mod m{d.k} {{\nuse super::common::*;\n{d.text}}}\n'


def plain(d):
    """the declaration without the library"""
    t = re.sub(r'#\[derive\(zod::\w+(::\w+)?(, )?', '#[derive(', d.text)
    t = re.sub(r'^#\[(zod|serde|namespace)\b.*\]\n', '', t, flags=re.M)
    return f'pub mod m{d.k} {{\nuse super::common::*;\n' + re.sub(r'#\[derive\([^)]*\)\]\n', '', re.sub(r'#\[serde[^\]]*\]', '', t)) + '}\n'


def crate(ds, text=module, tail='fn main() {}\n'):
    """the text of a program, and the first line of each declaration in it"""
    o, at = HEAD, []
    n = o.count('\n') + 1
    for d in ds:
        m = text(d)
        at.append((n, d))
        n += m.count('\n')
        o += m
    return o + tail, at
