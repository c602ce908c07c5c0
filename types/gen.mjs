// Enumerates the declaration grammar of a corpus and writes a crate with NBIN binaries + descriptors.
// usage: node gen.mjs <corpus> <tier> <outdir>
import fs from 'node:fs';
import path from 'node:path';
import {
  U8, STR, BOOL, UNIT, prim, opt, vec, box, tup, arr, map, set, res, wrap, ref, field, noDe, strukt, enm, variant,
  resetNames, declSrc, rustTy, RULES, rstr,
} from './model.mjs';

export const NBIN = 8;

// ------------------------------------------------------------------ leaf declarations (present in every binary)
export function leaves() {
  const L = [];
  const add = (d, o = {}) => { L.push(Object.assign(d, o)); };
  add(strukt('named', [field('x', U8)], { name: 'Inner' }));
  add(strukt('named', [field('p', U8), field('q', opt(STR))], { name: 'Wide' }));
  add(strukt('tuple', [field('0', U8), field('1', STR)], { name: 'Tup' }));
  add(strukt('tuple', [field('0', U8)], { name: 'New' }));
  add(enm('ext', [variant('A', 'unit'), variant('B', 'unit')], { name: 'Units' }));
  add(enm('ext', [variant('A', 'unit'), variant('B', 'tuple', [field('0', U8)])], { name: 'Ext' }));
  add(enm('ext', [variant('A', 'tuple', [field('0', STR)]), variant('B', 'tuple', [field('0', U8)])], { name: 'Ext2' }));
  add(enm({ tag: 't' }, [variant('A', 'unit'), variant('B', 'named', [field('y', U8)])], { name: 'Int' }));
  add(strukt('named', [field('v', U8), field('next', opt(box(ref('Node'))))], { name: 'Node' }), { recursive: true });
  add(strukt('named', [field('kids', vec(ref('Tree')))], { name: 'Tree' }), { recursive: true });
  add(enm('ext', [variant('Leaf', 'unit'), variant('Cons', 'tuple', [field('0', U8), field('1', box(ref('List')))])], { name: 'List' }), { recursive: true });
  return L;
}

const FIELD_ATTRS = ['none', 'default', 'default_path', 'skip', 'skip_deserializing', 'skip_serializing', 'rename', 'alias'];
const TAGS = ['ext', { tag: 'ty' }, { tag: 'ty', content: 'co' }, 'un'];

// A tuple whose non-defaulted field follows a defaulted one is refused by the macro (C18)
const badTuple = (fs) => { let d = false; for (const f of fs) { if (noDe(f)) continue; if (f.dflt) d = true; else if (d) return true; } return false; };

function derive(tier) {
  const D = [];
  const thorough = tier === 'thorough';
  const leafTs = [U8, STR, opt(U8), vec(U8), ref('Inner')];
  // ---- named structs
  for (const t of leafTs) for (const a of FIELD_ATTRS) D.push(strukt('named', [field('a', t, a)]));
  for (const t of [ref('Inner'), opt(ref('Inner')), ref('Wide'), ref('Int'), map(STR, U8)]) D.push(strukt('named', [field('a', t, 'flatten')]), strukt('named', [field('a', t, 'flatten'), field('b', U8)]));
  D.push(strukt('named', [field('a', ref('Inner'), 'flatten', 'default'), field('b', U8)]));
  for (const t of [ref('Ext2'), res(U8, STR), box(ref('Inner'))]) D.push(strukt('named', [field('a', t, 'flatten'), field('b', U8)]), strukt('named', [field('b', U8), field('a', t, 'flatten')]));
  D.push(strukt('named', [field('a', res(U8, STR), 'flatten'), field('b', ref('Inner'), 'flatten')]));
  D.push(strukt('named', [field('a', ref('Inner'), 'flatten'), field('b', ref('Wide'), 'flatten')]));
  for (const a of FIELD_ATTRS) for (const b of FIELD_ATTRS) if (!(a === b && (a === 'rename' || a === 'alias'))) D.push(strukt('named', [field('a', U8, a), field('b_c', STR, b)]));
  D.push(strukt('named', [field('a', opt(U8), 'skip_if_none'), field('b', U8)]));
  D.push(strukt('named', [field('a', opt(U8), 'skip_if_none', 'default')]));
  D.push(strukt('named', [field('a', opt(U8), 'default', 'rename')]), strukt('named', [field('a', vec(U8), 'default', 'alias'), field('b', U8)]));
  // ---- container attributes on structs
  for (const c of [{ c: ['default'], cdefault: true, derive: ['Default'] }, { c: ['deny_unknown_fields'] }, { ruleAll: 'camelCase' }, { c: ['rename = "Cont"'], tsName: 'Cont' }]) {
    const uniq = () => (c.tsName ? { ...c, c: [`rename = "Cont${D.length}"`], tsName: `Cont${D.length}` } : { ...c });
    for (const a of ['none', 'default', 'skip', 'rename', 'alias']) D.push(strukt('named', [field('fld_a', U8, a), field('b_c', STR)], uniq()));
    D.push(strukt('named', [field('a', opt(U8)), field('b', vec(U8))], uniq()));
    if (c.tsName) D.push(strukt('tuple', [field('0', U8), field('1', STR)], uniq()));
  }
  // ---- tuple structs, newtypes
  for (const t of [...leafTs, tup(U8, STR), ref('Units')]) for (const a of ['none', 'default']) D.push(strukt('tuple', [field('0', t, a)]));
  const tattrs = ['none', 'default', 'default_path', 'skip', 'skip_deserializing', 'skip_serializing'];
  for (const a of tattrs) for (const b of tattrs) {
    const fs_ = [field('0', U8, a), field('1', STR, b)];
    if (!badTuple(fs_) && !fs_.every(noDe)) D.push(strukt('tuple', fs_));
  }
  for (const [a, b, c] of [['none', 'none', 'none'], ['none', 'none', 'default'], ['none', 'default', 'default'], ['skip', 'none', 'none'], ['none', 'skip', 'none'], ['none', 'none', 'skip'], ['skip', 'skip', 'none'], ['default', 'default', 'default']]) {
    D.push(strukt('tuple', [field('0', U8, a), field('1', STR, b), field('2', opt(U8), c)]));
  }
  D.push(strukt('tuple', [field('0', opt(U8)), field('1', opt(STR))]), strukt('tuple', [field('0', U8), field('1', opt(STR), 'default')]));
  // ---- transparent
  for (const t of leafTs) for (const style of ['named', 'tuple']) D.push(strukt(style, [field(style === 'named' ? 'a' : '0', t)], { c: ['transparent'], transparent: true }));
  for (const style of ['named', 'tuple']) {
    const f0 = (n) => (style === 'named' ? ['a', 'b'][n] : String(n));
    D.push(strukt(style, [field(f0(0), U8), field(f0(1), prim('std::marker::PhantomData<u8>'), 'skip')], { c: ['transparent'], transparent: true }));
    D.push(strukt(style, [field(f0(0), prim('std::marker::PhantomData<u8>'), 'skip'), field(f0(1), STR)], { c: ['transparent'], transparent: true }));
  }
  // ---- conversions
  D.push(strukt('named', [field('a', U8)], { c: ['from = "u8"'], from: U8, extra: (n) => `impl From<u8> for ${n} { fn from(a: u8) -> Self { Self { a } } }`, asym: true }));
  D.push(strukt('named', [field('a', U8)], { c: ['try_from = "Inner"'], from: ref('Inner'), extra: (n) => `impl TryFrom<Inner> for ${n} { type Error = String; fn try_from(i: Inner) -> Result<Self, String> { Ok(Self { a: i.x }) } }`, asym: true }));
  D.push(strukt('tuple', [field('0', STR)], { c: ['from = "Vec<u8>"'], from: vec(U8), extra: (n) => `impl From<Vec<u8>> for ${n} { fn from(v: Vec<u8>) -> Self { Self(format!("{v:?}")) } }`, asym: true }));
  D.push(enm('ext', [variant('A', 'unit'), variant('B', 'tuple', [field('0', U8)])], { c: ['from = "u8"'], from: U8, extra: (n) => `impl From<u8> for ${n} { fn from(a: u8) -> Self { if a == 0 { Self::A } else { Self::B(a) } } }`, asym: true }));
  D.push(enm('ext', [variant('A', 'unit'), variant('B', 'unit')], { c: ['from = "Inner"'], from: ref('Inner'), extra: (n) => `impl From<Inner> for ${n} { fn from(a: Inner) -> Self { if a.x == 0 { Self::A } else { Self::B } } }`, asym: true }));

  // ---- enums
  const isInt = (t) => t.tag !== undefined && t.content === undefined;
  const kinds = (tg, n) => {
    // every variant body
    const K = [];
    K.push(() => variant(n, 'unit'));
    for (const t of isInt(tg) ? [ref('Inner'), ref('Wide'), ref('Int')] : [U8, STR, ref('Inner'), opt(U8), tup(U8, STR), vec(U8)]) K.push(() => variant(n, 'tuple', [field('0', t)]));
    if (!isInt(tg)) K.push(() => variant(n, 'tuple', [field('0', U8), field('1', STR)]));
    K.push(() => variant(n, 'named', [field('f_a', U8)]));
    K.push(() => variant(n, 'named', [field('f_a', U8), field('f_b', opt(STR))]));
    return K;
  };
  for (const tg of TAGS) {
    const singles = kinds(tg, 'Aa');
    for (const k of singles) D.push(enm(tg, [k()]));
    // fields attributes inside variants
    for (const a of FIELD_ATTRS) {
      for (const t of [U8, opt(U8)]) D.push(enm(tg, [variant('Aa', 'named', [field('f_a', t, a)]), variant('Bb', 'unit')]));
      D.push(enm(tg, [variant('Aa', 'named', [field('f_a', U8, a), field('f_b', STR)]), variant('Bb', 'named', [field('f_a', U8)])]));
      D.push(enm(tg, [variant('Aa', 'named', [field('f_a', U8), field('f_b', STR, a)])]));
    }
    for (const a of ['skip', 'skip_deserializing']) D.push(enm(tg, [variant('Aa', 'named', [field('f_a', U8, a), field('f_b', STR, a)]), variant('Bb', 'unit')]));
    if (!isInt(tg)) {
      for (const a of ['none', 'default', 'skip', 'skip_deserializing', 'skip_serializing']) {
        if (!(a === 'skip_deserializing')) D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8, a)]), variant('Bb', 'tuple', [field('0', STR)])]));
        D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8, a), field('1', STR)]), variant('Bb', 'unit')]));
        D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8), field('1', STR, a)]), variant('Bb', 'unit')]));
        D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8), field('1', STR, a), field('2', U8, a === 'default' ? a : 'none')])]));
      }
      D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8, 'skip'), field('1', STR, 'skip')]), variant('Bb', 'unit')]));
    } else {
      D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8, 'skip')]), variant('Bb', 'tuple', [field('0', ref('Inner'))])]));
    }
    // pairs of variant kinds
    const core = (n) => isInt(tg)
      ? [variant(n, 'unit'), variant(n, 'tuple', [field('0', ref('Inner'))]), variant(n, 'named', [field('f_a', U8)]), variant(n, 'named', [field('f_a', U8), field('f_b', STR)])]
      : [variant(n, 'unit'), variant(n, 'tuple', [field('0', U8)]), variant(n, 'tuple', [field('0', ref('Inner'))]), variant(n, 'tuple', [field('0', U8), field('1', STR)]), variant(n, 'named', [field('f_a', U8)]), variant(n, 'named', [field('f_a', U8), field('f_b', STR)])];
    const m = core('A').length;
    for (let i = 0; i < m; i++) for (let j = 0; j < m; j++) {
      D.push(enm(tg, [core('Aa')[i], core('Bb')[j]]));
      if (thorough || (i < j && (i + j) % 2 === 1)) for (let k = 0; k < (thorough ? m : 1); k++) D.push(enm(tg, [core('Aa')[i], core('Bb')[j], core('CcDd')[k]]));
    }
    // variant attributes
    for (const sk of ['skip', 'skip_deserializing', 'skip_serializing']) for (let i = 0; i < m; i++) {
      D.push(enm(tg, [Object.assign(core('Aa')[i], { skip: sk }), core('Bb')[(i + 1) % m]]));
      D.push(enm(tg, [core('Aa')[(i + 1) % m], Object.assign(core('Bb')[i], { skip: sk }), core('Cc')[0]]));
    }
    for (let i = 0; i < m; i++) {
      D.push(enm(tg, [Object.assign(core('Aa')[i], { a: ['alias = "ali"'] }), core('Bb')[0]]));
      D.push(enm(tg, [Object.assign(core('Aa')[i], { rename: 'ren' }), core('Bb')[i]]));
    }
    if (tg !== 'un') D.push(enm(tg, [variant('Aa', 'unit'), variant('Bb', 'unit', [], { a: ['other'] })].filter((v) => tg !== 'ext' || !v.a.length).concat(tg === 'ext' ? [variant('Bb', 'unit')] : [])));
    for (const r of ['camelCase', 'SCREAMING_SNAKE_CASE']) D.push(enm(tg, [variant('AaBb', 'unit'), core('CcDd')[2], core('EeFf')[m - 1]], { ruleAll: r }));
    if (tg !== 'un') D.push(enm(tg, [variant('Aa', 'named', [field('f_a', U8)]), variant('Bb', 'unit')], { c: ['deny_unknown_fields'] }));
  }
  // ---- use of derived types inside other types
  const refs = ['Inner', 'Wide', 'Tup', 'New', 'Units', 'Ext', 'Int', 'Node', 'Tree', 'List'].map(ref);
  for (const r of refs) {
    D.push(strukt('named', [field('a', r)]), strukt('named', [field('a', opt(r)), field('b', vec(r))]), strukt('tuple', [field('0', r)]), strukt('tuple', [field('0', r), field('1', box(r))]));
    D.push(strukt('named', [field('a', r, 'default'), field('b', tup(r, U8))], { skipIf: r.name === 'none' }));
    D.push(strukt('named', [field('a', map(STR, r))]), strukt('named', [field('a', res(r, STR))]), strukt('named', [field('a', opt(box(r)))]));
    for (const tg of TAGS) {
      if (isInt(tg) && !['Inner', 'Wide', 'Node', 'Tree', 'Int'].includes(r.name)) continue;
      D.push(enm(tg, [variant('Aa', 'tuple', [field('0', r)]), variant('Bb', 'named', [field('f_a', r)])]));
      if (!isInt(tg)) D.push(enm(tg, [variant('Aa', 'tuple', [field('0', r), field('1', vec(r))])]));
    }
  }
  return { decls: D, types: [] };
}

// ------------------------------------------------------------------ names
function names(tier) {
  const D = [];
  const thorough = tier === 'thorough';
  const F = (o = {}) => [field('foo_bar', U8, ...(o.a ?? [])), field('baz', STR, ...(o.b ?? []))];
  for (const r of RULES) {
    D.push(strukt('named', F(), { ruleAll: r }));
    D.push(strukt('named', F({ a: [{ rename: 'explicitName' }] }), { ruleAll: r }));
    D.push(strukt('named', F({ b: ['default'] }), { ruleAll: r }));
    D.push(strukt('named', [field('a', U8), field('x_yy_z1', opt(U8), 'alias')], { ruleAll: r }));
    for (const tg of TAGS) {
      // variants, fields of one variant, fields of all variants
      D.push(enm(tg, [variant('FooBar', 'unit'), variant('Baz', 'named', F())], { ruleAll: r }));
      D.push(enm(tg, [variant('FooBar', 'named', F(), { ruleAll: r }), variant('BazQux', 'named', F())]));
      D.push(enm(tg, [variant('FooBar', 'named', F(), { ruleAll: r }), variant('HTTPGet', 'named', [field('other_one', U8)], { ruleAll: 'kebab-case' })]));
      D.push(enm(tg, [variant('FooBar', 'named', F(), { ruleAll: 'UPPERCASE' }), variant('Baz', 'named', F())], { ruleAll: r }));
      D.push(enm(tg, [variant('FooBar', 'unit', [], { rename: 'exPlicit' }), variant('HTTPGet', 'unit'), variant('A1b2', 'unit')], { ruleAll: r }));
      if (!(tg.tag && !tg.content)) D.push(enm(tg, [variant('FooBar', 'tuple', [field('0', U8)]), variant('BazQux', 'tuple', [field('0', U8), field('1', STR)])], { ruleAll: r }));
      else D.push(enm(tg, [variant('FooBar', 'tuple', [field('0', ref('Inner'))]), variant('BazQux', 'unit')], { ruleAll: r }));
    }
  }
  // names that differ between the directions
  for (const tg of TAGS) {
    const B = () => (tg.tag && !tg.content ? [field('0', ref('Inner'))] : [field('0', U8)]);
    for (const mk of [(o) => variant('Aa', 'unit', [], o), (o) => variant('Aa', 'tuple', B(), o), (o) => variant('Aa', 'named', F(), o)]) {
      D.push(enm(tg, [mk({ rename: 'inName', serName: 'outName' }), variant('Bb', 'unit')], { asym: true }));
      D.push(enm(tg, [mk({ rename: 'inName', serName: 'Aa' })], { asym: true }));
      D.push(enm(tg, [mk({ rename: 'Aa', serName: 'outName' }), variant('CcDd', 'named', [field('x', U8)], { rename: 'outName', serName: 'CcDd' })], { asym: true }));
    }
    D.push(enm(tg, [variant('FooBar', 'unit'), variant('BazQux', 'named', F())], { ruleAll: 'kebab-case', ruleSer: 'UPPERCASE', asym: true }));
    D.push(enm(tg, [variant('FooBar', 'named', F(), { ruleAll: 'camelCase', ruleSer: 'UPPERCASE' }), variant('BazQux', 'unit')], { asym: true }));
    D.push(enm(tg, [variant('Aa', 'named', [field('f_a', U8, { renameDe: 'inField' }), field('f_b', STR)]), variant('Bb', 'unit')], { asym: true }));
  }
  for (const r of RULES) D.push(strukt('named', F(), { ruleAll: r, ruleSer: RULES[(RULES.indexOf(r) + 3) % RULES.length], asym: true }));
  const odd = ['kebab-name', 'with space', '1digit', '123', '', 'dot.name', 'qu"ote', "apo'strophe", 'back\\slash', 'new\nline', 'tab\tx', 'ünï', '日本', '😀', 'a\u2028b', 'class', 'default', 'delete', 'constructor', 'toString', '__proto__x', '$dollar', '_under', '{brace}', '{{', '`tick`', '${x}', '*/', '//', '</script>', 'a:b', 'a?', '[x]', '@type', '#id', 'null', 'undefined', 'NaN', 'then', '\u0000nul', '\u007f', 'ſ', 'ﬀ', 'a\u0301'];
  for (const n of odd) {
    D.push(strukt('named', [field('a', U8, { rename: n }), field('b', STR)]));
    D.push(strukt('named', [field('a', U8, { rename: n }, 'default'), field('b', STR)]));
    D.push(strukt('named', [field('a', U8, { renameDe: n }), field('b', STR)], { asym: true }));
    for (const tg of TAGS) {
      D.push(enm(tg, [variant('Aa', 'unit', [], { rename: n }), variant('Bb', 'named', [field('x', U8)], { rename: n + n + 'z' })]));
      D.push(enm(tg, [variant('Aa', 'named', [field('x', U8, { rename: n })]), variant('Bb', 'unit')]));
      if (!(tg.tag && !tg.content)) {
        D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8)], { rename: n }), variant('Bb', 'tuple', [field('0', U8), field('1', STR)])]));
        if (thorough) D.push(enm(tg, [variant('Aa', 'tuple', [field('0', U8), field('1', STR)], { rename: n })]));
      } else D.push(enm(tg, [variant('Aa', 'tuple', [field('0', ref('Inner'))], { rename: n }), variant('Bb', 'unit')]));
    }
    D.push(enm({ tag: n }, [variant('Aa', 'unit'), variant('Bb', 'named', [field('x', U8)])]));
    D.push(enm({ tag: n, content: 'co' }, [variant('Aa', 'unit'), variant('Bb', 'named', [field('x', U8)]), variant('Cc', 'tuple', [field('0', U8)])]));
    D.push(enm({ tag: 'ty', content: n }, [variant('Aa', 'unit'), variant('Bb', 'named', [field('x', U8)]), variant('Cc', 'tuple', [field('0', U8), field('1', U8)])]));
  }
  for (const n of ['r#type', 'r#match', 'r#fn', '_x', 'x1', 'CamelField']) {
    D.push(strukt('named', [field(n, U8), field('b', STR)]), strukt('named', [field(n, U8, 'default')], { ruleAll: 'camelCase' }), enm('ext', [variant('Aa', 'named', [field(n, U8)])]));
  }
  for (const n of ['r#Do', 'r#Yield', 'Lower', 'UPPER', 'X']) for (const tg of TAGS) D.push(enm(tg, [variant(n, 'unit'), variant('Zz', 'unit')]));
  // containers
  for (const [i, n] of ['Renamed', 'lower', '$x', '_U', 'Ünï', 'default_', 'String', 'Array', 'Object'].entries()) {
    D.push(strukt('named', [field('a', U8)], { c: [`rename = ${rstr(n)}`], tsName: n, name: `Cn${i}` }));
    D.push(strukt('named', [field('b', opt(ref(`Cn${i}`))), field('c', vec(ref(`Cn${i}`)))], { needs: [`Cn${i}`] }));
    D.push(enm('ext', [variant('Aa', 'tuple', [field('0', ref(`Cn${i}`))]), variant('Bb', 'unit')], { c: [`rename(deserialize = "${n}E", serialize = "Other")`], tsName: `${n}E`, needs: [`Cn${i}`] }));
  }
  return { decls: D, types: [] };
}

// ------------------------------------------------------------------ built-in types
const INTS = ['u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'];
function builtin(tier) {
  const thorough = tier === 'thorough';
  const P0 = [...INTS, 'f32', 'f64', 'bool', 'char', 'String', '()', 'std::net::Ipv4Addr', 'std::net::Ipv6Addr', 'std::net::IpAddr', 'smol_str::SmolStr', 'ordered_float::NotNan<f32>', 'ordered_float::NotNan<f64>'].map(prim);
  const B = 'std::collections::BTreeMap', H = 'std::collections::HashMap', BS = 'std::collections::BTreeSet', HS = 'std::collections::HashSet';
  const W = ['Box', 'std::sync::Arc', 'std::rc::Rc', 'std::borrow::Cow<\'static, $>', 'std::cell::RefCell', 'std::sync::Mutex', 'std::marker::PhantomData', 'std::sync::Weak'];
  const un = (t) => [opt(t), vec(t), tup(t), tup(t, U8), arr(t, 0), arr(t, 1), arr(t, 2), arr(t, 3), map(STR, t, B), map(STR, t, H), res(t, STR), res(STR, t), ...W.map((w) => wrap(w, t))];
  const hashable = (t) => !/f32|f64/.test(rustTy(t)) && t.k !== 'wrap';
  const T = [...P0];
  for (const p of P0) {
    T.push(...un(p));
    if (!/^f(32|64)$/.test(p.k)) T.push(set(p, BS), set(p, HS));
    if (/^[ui]\d|size|String|char|bool|Addr$/.test(p.k) && !/SmolStr/.test(p.k)) T.push(map(p, U8, B), map(p, STR, H));
    if (!/^(String|char|bool|\(\)|std::net|smol|ord)/.test(p.k)) T.push(wrap('std::cell::Cell', p));
  }
  T.push(map(ref('Units'), U8, B), wrap('std::cell::Cell', opt(U8)), wrap('std::cell::Cell', BOOL));
  // two levels over a small core
  const core = [U8, STR, ref('Inner'), ref('Units'), UNIT, BOOL];
  for (const c of core) for (const a of un(c)) {
    if (a.k === 'wrap' && /PhantomData|Weak/.test(a.name)) continue;
    for (const b of [opt(a), vec(a), tup(a, STR), tup(U8, a, BOOL), arr(a, 2), map(STR, a, B), res(a, a), wrap('Box', a), ...(thorough ? un(a) : [])]) if (!/Cow<'static, (Mutex|RefCell|.*(RefCell|Mutex))/.test(rustTy(b))) T.push(b);
  }
  for (const n of ['Node', 'Tree', 'List', 'Tup', 'New', 'Ext', 'Int', 'Wide']) T.push(ref(n), ...un(ref(n)).filter((x) => !(x.k === 'wrap' && /Cow/.test(x.name))));
  const many = [U8, STR, BOOL, opt(U8), UNIT, vec(U8), prim('char'), prim('i16')];
  for (let n = 3; n <= 12; n++) T.push(tup(...Array.from({ length: n }, (_, i) => many[i % many.length])));
  if (thorough) for (const c of core) for (const a of [opt, vec, box]) for (const b of [opt, vec, box, (x) => tup(x, U8)]) for (const d of [opt, vec, box, (x) => map(STR, x), (x) => res(x, STR)]) T.push(d(b(a(c))));
  const seen = new Set();
  return { decls: [], types: T.filter((t) => { const r = rustTy(t); if (seen.has(r)) return false; seen.add(r); return true; }).filter((t) => !/Cow<'static, (std::sync::(Mutex|Weak)|std::cell)/.test(rustTy(t))) };
}

export const CORPORA = { derive, names, builtin };

function rustDecl(d) {
  const derives = ['Debug', 'Clone', 'Serialize', 'Deserialize', 'Zod', ...(d.derive ?? [])];
  return `#[derive(${derives.join(', ')})] #[zod(namespace = "Ns")] ${declSrc(d)}\n${d.extra ? d.extra(d.name) + '\n' : ''}`;
}

export function build(corpus, tier) {
  resetNames();
  const L = leaves();
  const { decls, types } = CORPORA[corpus](tier);
  return { L, decls, types };
}

if (import.meta.url === `file://${process.argv[1]}`) {
  const [, , corpus, tier, out] = process.argv;
  const { L, decls, types } = build(corpus, tier);
  const needs = new Map(decls.map((d) => [d.name, d]));
  const shards = Array.from({ length: NBIN }, () => ({ decls: [], types: [] }));
  decls.forEach((d, i) => shards[i % NBIN].decls.push(d));
  types.forEach((t, i) => shards[i % NBIN].types.push(t));
  fs.mkdirSync(path.join(out, 'src/bin'), { recursive: true });
  const write = (f, s) => { const p = path.join(out, f); if (!fs.existsSync(p) || fs.readFileSync(p, 'utf8') !== s) fs.writeFileSync(p, s); };
  shards.forEach((sh, i) => {
    const pull = [];
    for (const d of sh.decls) for (const n of d.needs ?? []) if (!sh.decls.some((x) => x.name === n) && !pull.includes(n)) pull.push(n);
    const ds = [...pull.map((n) => needs.get(n)), ...sh.decls];
    const leafDer = (d) => rustDecl(d).replace('#[derive(', d.name === 'Units' ? '#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, ' : d.name === 'List' || d.kind === 'enum' ? '#[derive(PartialEq, ' : '#[derive(PartialEq, Default, ');
    let s = `#![allow(dead_code, non_camel_case_types, clippy::all)]\nmod rt { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/rt.rs")); }\nuse serde::{Serialize, Deserialize};\nuse zod::{Zod, Namespace};\n#[derive(Namespace)] #[namespace(name = "Ns")] pub struct Ns;\n`;
    s += L.map(leafDer).join('');
    for (const d of L) if (d.kind === 'enum') s += `impl Default for ${d.name} { fn default() -> Self { Self::${d.variants[0].name}${d.variants[0].style === 'tuple' ? '(Default::default())' : ''} } }\n`;
    s += ds.map(rustDecl).join('');
    s += 'fn main() {\n  let mut t: Vec<(&str, rt::Ops)> = Vec::new();\n';
    for (const d of [...L, ...ds]) s += `  t.push((${rstr(d.name)}, rt::ops::<${d.name}>()));\n`;
    for (const t of sh.types) s += `  t.push((${rstr(rustTy(t))}, rt::ops::<${rustTy(t)}>()));\n`;
    s += '  rt::run(t);\n}\n';
    write(`src/bin/${corpus}_${tier[0]}_s${i}.rs`, s);
    write(`shard${i}.json`, JSON.stringify({ leaves: L.map((d) => d.name), decls: ds, types: sh.types }));
  });
  write('src/rt.rs', fs.readFileSync(new URL('./rt.rs', import.meta.url), 'utf8'));
  write('Cargo.toml', `[package]\nname = "types-${corpus}-${tier}"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nzod = { path = "${process.env.ZOD_REPO ?? "/repo"}", features = ["smol_str", "ordered-float"] }\nserde = { version = "1", features = ["derive", "rc"] }\nserde_json = "1"\nsmol_str = { version = "0.1", features = ["serde"] }\nordered-float = { version = "3.4", features = ["serde"] }\n[profile.dev]\ndebug = 0\nincremental = false\n`);
  console.log(JSON.stringify({ decls: decls.length, types: types.length }));
}
