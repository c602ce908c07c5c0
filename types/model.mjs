// Vocabulary shared by the corpora: Rust types, declarations, their Rust source, and sample values.
// The sample values only have to *reach* interesting values; the oracles are serde, zod and tsc.

export const prim = (k) => ({ k });
export const U8 = prim('u8'), STR = prim('String'), BOOL = prim('bool'), UNIT = prim('()');
export const opt = (t) => ({ k: 'opt', t });
export const vec = (t) => ({ k: 'vec', t });
export const box = (t) => ({ k: 'box', t });
export const tup = (...ts) => ({ k: 'tup', ts });
export const arr = (t, n) => ({ k: 'arr', t, n });
export const map = (kt, t, rust = 'std::collections::BTreeMap') => ({ k: 'map', kt, t, rust });
export const set = (t, rust = 'std::collections::BTreeSet') => ({ k: 'set', t, rust });
export const res = (t, e) => ({ k: 'res', t, e });
export const wrap = (name, t) => ({ k: 'wrap', name, t });
export const ref = (name) => ({ k: 'ref', name });

export function rustTy(t) {
  switch (t.k) {
    case 'opt': return `Option<${rustTy(t.t)}>`;
    case 'vec': return `Vec<${rustTy(t.t)}>`;
    case 'box': return `Box<${rustTy(t.t)}>`;
    case 'tup': return `(${t.ts.map(rustTy).join(', ')}${t.ts.length === 1 ? ',' : ''})`;
    case 'arr': return `[${rustTy(t.t)}; ${t.n}]`;
    case 'map': return `${t.rust}<${rustTy(t.kt)}, ${rustTy(t.t)}>`;
    case 'set': return `${t.rust}<${rustTy(t.t)}>`;
    case 'res': return `Result<${rustTy(t.t)}, ${rustTy(t.e)}>`;
    case 'wrap': return t.name.includes('$') ? t.name.replace('$', rustTy(t.t)) : `${t.name}<${rustTy(t.t)}>`;
    case 'ref': return t.name;
    default: return t.k;
  }
}

// ---------------------------------------------------------------- serde's naming rules
const cap = (s) => s.charAt(0).toUpperCase() + s.slice(1);
export const RULES = ['lowercase', 'UPPERCASE', 'PascalCase', 'camelCase', 'snake_case', 'SCREAMING_SNAKE_CASE', 'kebab-case', 'SCREAMING-KEBAB-CASE'];
export function fieldRule(rule, f) {
  const pascal = () => f.split('_').map(cap).join('');
  switch (rule) {
    case undefined: case 'lowercase': case 'snake_case': return f;
    case 'UPPERCASE': case 'SCREAMING_SNAKE_CASE': return f.toUpperCase();
    case 'PascalCase': return pascal();
    case 'camelCase': { const p = pascal(); return p.charAt(0).toLowerCase() + p.slice(1); }
    case 'kebab-case': return f.replaceAll('_', '-');
    case 'SCREAMING-KEBAB-CASE': return f.toUpperCase().replaceAll('_', '-');
  }
}
export function variantRule(rule, v) {
  const snake = () => v.replace(/(?!^)([A-Z])/g, '_$1').toLowerCase();
  switch (rule) {
    case undefined: case 'PascalCase': return v;
    case 'lowercase': return v.toLowerCase();
    case 'UPPERCASE': return v.toUpperCase();
    case 'camelCase': return v.charAt(0).toLowerCase() + v.slice(1);
    case 'snake_case': return snake();
    case 'SCREAMING_SNAKE_CASE': return snake().toUpperCase();
    case 'kebab-case': return snake().replaceAll('_', '-');
    case 'SCREAMING-KEBAB-CASE': return snake().toUpperCase().replaceAll('_', '-');
  }
}
export const rstr = (s) => JSON.stringify(s).replace(/\\u([0-9a-f]{4})/g, '\\u{$1}').replace(/\\b/g, '\\u{8}').replace(/\\f/g, '\\u{c}');
export const bare = (id) => id.replace(/^r#/, '');

// ---------------------------------------------------------------- declarations
// field: {name, t, a: [serde attrs], rename, alias, skip: 'both'|'de'|'ser', flatten, dflt}
export function field(name, t, ...attrs) {
  const f = { name, t, a: [] };
  for (const at of attrs) {
    if (at === 'none') continue;
    if (at === 'default') { f.a.push('default'); f.dflt = true; }
    else if (at === 'default_path') { f.a.push(`default = "${t.k === 'u8' ? 'crate::rt::d_u8' : t.k === 'String' ? 'crate::rt::d_string' : 'Default::default'}"`); f.dflt = true; }
    else if (at === 'skip') { f.a.push('skip'); f.skip = 'both'; }
    else if (at === 'skip_deserializing') { f.a.push('skip_deserializing'); f.skip = 'de'; }
    else if (at === 'skip_serializing') { f.a.push('skip_serializing'); f.skip = 'ser'; }
    else if (at === 'skip_if_none') { f.a.push('skip_serializing_if = "Option::is_none"'); }
    else if (at === 'flatten') { f.a.push('flatten'); f.flatten = true; }
    else if (at === 'alias') { f.a.push('alias = "ali"'); f.alias = 'ali'; }
    else if (at === 'rename') { f.a.push('rename = "ren"'); f.rename = 'ren'; }
    else if (at.rename !== undefined) { f.a.push(`rename = ${rstr(at.rename)}`); f.rename = at.rename; }
    else if (at.renameDe !== undefined) { f.a.push(`rename(deserialize = ${rstr(at.renameDe)}, serialize = "ser_name")`); f.rename = at.renameDe; f.serName = 'ser_name'; }
    else if (at.raw) { f.a.push(at.raw); }
    else throw new Error('attr ' + at);
  }
  return f;
}
export const noDe = (f) => f.skip === 'both' || f.skip === 'de';
const attrs = (a) => (a.length ? `#[serde(${a.join(', ')})] ` : '');
export const fkey = (f, rule) => f.rename ?? fieldRule(rule, bare(f.name));

// struct: {kind:'struct', style:'named'|'tuple', fields, c:[container attrs], ruleAll, transparent, cdefault, from, deny}
// enum:   {kind:'enum', tagging:'ext'|{tag}|{tag,content}|'un', variants:[{name, style:'unit'|'tuple'|'named', fields, a, rename, skip, ruleAll}], ruleAll, ruleFields}
let counter = 0;
export const resetNames = () => { counter = 0; };
export const fresh = () => `T${counter++}`;

export function strukt(style, fields, o = {}) {
  return { kind: 'struct', name: o.name ?? fresh(), style, fields, ...o, c: o.c ?? [] };
}
export function enm(tagging, variants, o = {}) {
  return { kind: 'enum', name: o.name ?? fresh(), tagging, variants, ...o, c: o.c ?? [] };
}
export function variant(name, style, fields = [], o = {}) {
  return { name, style, fields, ...o, a: o.a ?? [] };
}
export const vkey = (d, v) => v.rename ?? variantRule(d.ruleAll, bare(v.name));

function fieldSrc(f, named, pub) {
  return `${attrs(f.a)}${named ? `${pub}${f.name}: ` : pub}${rustTy(f.t)}`;
}
function fieldsSrc(style, fields, pub = '') {
  if (style === 'unit') return '';
  if (style === 'named') return ` { ${fields.map((f) => fieldSrc(f, true, pub)).join(', ')} }`;
  return `(${fields.map((f) => fieldSrc(f, false, pub)).join(', ')})`;
}
export function containerAttrs(d) {
  const c = [...d.c];
  if (d.ruleAll) c.push(d.ruleSer ? `rename_all(deserialize = "${d.ruleAll}", serialize = "${d.ruleSer}")` : `rename_all = "${d.ruleAll}"`);
  if (d.ruleFields) c.push(`rename_all_fields = "${d.ruleFields}"`);
  if (d.kind === 'enum') {
    if (d.tagging === 'un') c.push('untagged');
    else if (d.tagging !== 'ext') {
      c.push(`tag = ${rstr(d.tagging.tag)}`);
      if (d.tagging.content !== undefined) c.push(`content = ${rstr(d.tagging.content)}`);
    }
  }
  return c;
}
export function declSrc(d) {
  const at = attrs(containerAttrs(d));
  if (d.kind === 'struct') {
    const body = fieldsSrc(d.style, d.fields, 'pub ');
    return `${at}pub struct ${d.name}${body}${d.style === 'tuple' ? ';' : ''}`;
  }
  const vs = d.variants.map((v) => {
    const a = [...v.a];
    if (v.rename !== undefined) a.push(v.serName !== undefined ? `rename(serialize = ${rstr(v.serName)}, deserialize = ${rstr(v.rename)})` : `rename = ${rstr(v.rename)}`);
    if (v.ruleAll) a.push(v.ruleSer ? `rename_all(serialize = "${v.ruleSer}", deserialize = "${v.ruleAll}")` : `rename_all = "${v.ruleAll}"`);
    if (v.skip) a.push(v.skip);
    return `${attrs(a)}${v.name}${fieldsSrc(v.style, v.fields)}`;
  });
  return `${at}pub enum ${d.name} { ${vs.join(', ')} }`;
}

// ---------------------------------------------------------------- sample values
const PRIM_SAMPLES = {
  u8: [0, 7], String: ['s', ''], bool: [true, false], '()': [null], char: ['c', '😀'], f32: [1.5, 0], f64: [1.5, 0],
  'std::net::Ipv4Addr': ['1.2.3.4'], 'std::net::Ipv6Addr': ['::1', '1:2:3:4:5:6:7:8'], 'std::net::IpAddr': ['1.2.3.4', '::1'],
  'smol_str::SmolStr': ['s', ''], 'ordered_float::NotNan<f32>': [1.5, 0], 'ordered_float::NotNan<f64>': [1.5, 0],
};
for (const k of ['u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize']) PRIM_SAMPLES[k] = [0, 7];
const limit = (a, n) => a.slice(0, n);
// vary one component at a time instead of the full product
function product(lists, n) {
  if (lists.some((l) => l.length === 0)) return [];
  const base = lists.map((l) => l[0]);
  const out = [base];
  lists.forEach((l, i) => l.slice(1).forEach((x) => out.push(base.map((b, j) => (j === i ? x : b)))));
  return limit(out, n);
}
export function samples(t, env, depth = 3) {
  const s = (x, d = depth) => samples(x, env, d);
  switch (t.k) {
    case 'opt': return depth <= 0 ? [undefined] : [...limit(s(t.t, depth - 1), 2), undefined, null];
    case 'vec': return depth <= 0 ? [[]] : [...limit(s(t.t, depth - 1), 2).map((x) => [x]), [], ...limit(s(t.t, depth - 1), 1).map((x) => [x, x])];
    case 'box': return depth <= 0 ? [] : s(t.t, depth - 1);
    case 'wrap': {
      if (/PhantomData/.test(t.name)) return [null];
      if (/Weak/.test(t.name)) return [undefined, null, ...limit(s(t.t), 1)];
      return s(t.t);
    }
    case 'tup': return product(t.ts.map((x) => s(x)), 6);
    case 'arr': { const x = limit(s(t.t), 2); const out = []; for (let n = 0; n <= t.n + 1; n++) out.push(...limit(x.map((v) => Array(n).fill(v)), n === t.n ? 2 : 1)); out.sort((a, b) => Math.abs(a.length - t.n) - Math.abs(b.length - t.n)); return out; }
    case 'map': {
      const ks = limit(s(t.kt), 2), vs = limit(s(t.t), 2);
      const m = (e) => new Map(e);
      const obj = (e) => Object.fromEntries(e);
      const one = ks.length && vs.length ? [[ks[0], vs[0]]] : [];
      return [m(one), obj(one.map(([k, v]) => [typeof k === 'object' ? JSON.stringify(k) : String(k), v])), m([]), {}, ...vs.slice(1).map((v) => m([[ks[0], v]]))];
    }
    case 'set': { const x = limit(s(t.t), 2); return [new Set(x.slice(0, 1)), x.slice(0, 1), new Set(), [], ...x.slice(1).map((v) => new Set([v]))]; }
    case 'res': return [...limit(s(t.t), 2).map((v) => ({ Ok: v })), ...limit(s(t.e), 2).map((v) => ({ Err: v }))];
    case 'ref': return depth <= 0 && env.get(t.name)?.recursive ? [] : declSamples(env.get(t.name), env, env.get(t.name)?.recursive ? depth - 1 : depth);
    default: if (!PRIM_SAMPLES[t.k]) throw new Error('samples: ' + t.k); return PRIM_SAMPLES[t.k];
  }
}
function bodySamples(style, fields, rule, env, depth, newtype) {
  const fs = fields.filter((f) => !noDe(f));
  if (style === 'named') {
    return product(fs.map((f) => samples(f.t, env, depth)), 8).map((vals) => {
      const o = {};
      fs.forEach((f, i) => { if (f.flatten) { if (vals[i] && typeof vals[i] === 'object' && !(vals[i] instanceof Map)) Object.assign(o, vals[i]); else if (vals[i] instanceof Map) Object.assign(o, Object.fromEntries(vals[i])); } else o[fkey(f, rule)] = vals[i]; });
      return o;
    });
  }
  const out = product(fs.map((f) => samples(f.t, env, depth)), 8);
  return newtype ? out.map((x) => x[0]) : out;
}
export function declSamples(d, env, depth = 3) {
  if (!d) throw new Error('unknown ref');
  if (d.from) return samples(d.from, env, depth);
  if (d.kind === 'struct') {
    const newtype = d.style === 'tuple' && d.fields.length === 1;
    if (d.transparent) { const f = d.fields.find((x) => !noDe(x)); return samples(f.t, env, depth); }
    return limit(bodySamples(d.style, d.fields, d.ruleAll, env, depth, newtype), 8);
  }
  const per = [];
  for (const v of d.variants) {
    const key = vkey(d, v);
    const rule = v.ruleAll ?? d.ruleFields;
    const newtype = v.style === 'tuple' && v.fields.length === 1;
    const unit = v.style === 'unit' || (newtype && v.fields[0].skip === 'both');
    const bodies = unit ? [undefined] : bodySamples(v.style, v.fields, rule, env, depth, newtype);
    const list = bodies.map((b) => {
      const t = d.tagging;
      if (t === 'ext') return unit ? key : { [key]: b };
      if (t === 'un') return unit ? null : b;
      if (t.content !== undefined) return unit ? { [t.tag]: key } : { [t.tag]: key, [t.content]: b };
      return unit ? { [t.tag]: key } : b && typeof b === 'object' && !Array.isArray(b) && !(b instanceof Map) && !(b instanceof Set) ? { [t.tag]: key, ...b } : { [t.tag]: key };
    });
    per.push(list);
  }
  // round robin over the variants
  const out = [];
  for (let i = 0; i < 6; i++) for (const l of per) if (i < l.length && !(i > 3 && per.length > 2)) out.push(l[i]);
  return limit(out, 10);
}

// ---------------------------------------------------------------- values: text, equality
const ID = /^[A-Za-z_$][A-Za-z0-9_$]*$/;
export function show(v) {
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  if (typeof v === 'number') return Object.is(v, -0) ? '-0' : String(v);
  if (typeof v === 'bigint') return `${v}n`;
  if (typeof v === 'string') return JSON.stringify(v).replace(/[\u2028\u2029\u007f-\u009f]/g, (c) => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0'));
  if (typeof v === 'boolean') return String(v);
  if (Array.isArray(v)) { const parts = []; for (let i = 0; i < v.length; i++) parts.push(show(v[i])); return `[${parts.join(', ')}]`; }
  if (v instanceof Map) return `new Map([${[...v].map(([k, x]) => `[${show(k)}, ${show(x)}]`).join(', ')}])`;
  if (v instanceof Set) return `new Set([${[...v].map(show).join(', ')}])`;
  return `{${Object.entries(v).map(([k, x]) => `${k === '__proto__' ? '["__proto__"]' : ID.test(k) ? k : show(k)}: ${show(x)}`).join(', ')}}`;
}
export function same(a, b) {
  if (a === b || (a !== a && b !== b)) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || !a || !b) return false;
  if (Array.isArray(a)) return Array.isArray(b) && a.length === b.length && a.every((x, i) => same(x, b[i]));
  if (Array.isArray(b)) return false;
  if (a instanceof Set || b instanceof Set) return a instanceof Set && b instanceof Set && same([...a], [...b]);
  if (a instanceof Map || b instanceof Map) return a instanceof Map && b instanceof Map && same([...a], [...b]);
  for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
    const x = Object.hasOwn(a, k) ? a[k] : undefined, y = Object.hasOwn(b, k) ? b[k] : undefined;
    if (!same(x, y)) return false;
  }
  return true;
}

// ---------------------------------------------------------------- single edits of a value
export function clone(v) {
  if (Array.isArray(v)) return v.map(clone);
  if (v instanceof Map) return new Map([...v].map(([k, x]) => [clone(k), clone(x)]));
  if (v instanceof Set) return new Set([...v].map(clone));
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, clone(x)]));
  return v;
}
// yields {v, e}: every value one edit away from `v`; menu = {atoms, keys, wraps}
export function* edits(v, menu) {
  const self = (x) => x;
  yield* at(v, self);
  function* at(n, put) {
    for (const a of menu.atoms) yield put(a);
    if (n !== undefined) { yield put([n]); }
    for (const k of menu.wraps ?? []) yield put({ [k]: n });
    if (Array.isArray(n)) {
      if (n.length) { yield put(n[0]); yield put(n.slice(0, -1)); yield put(n.slice(1)); yield put([...n, n[n.length - 1]]); }
      if (n.length > 1) { yield put([...n].reverse()); yield put(Object.fromEntries(n.map((x, i) => [i, x]))); }
      for (const a of menu.appends) yield put([...n, a]);
      for (let i = 0; i < n.length; i++) yield* at(n[i], (x) => put(n.map((y, j) => (j === i ? x : y))));
    } else if (n instanceof Set) {
      yield put([...n]);
      for (const a of menu.appends) yield put(new Set([...n, a]));
      const xs = [...n];
      for (let i = 0; i < xs.length; i++) yield* at(xs[i], (x) => put(new Set(xs.map((y, j) => (j === i ? x : y)))));
    } else if (n instanceof Map) {
      const xs = [...n];
      yield put(xs);
      for (const a of menu.appends) yield put(new Map([...n, [a, xs[0]?.[1]]]));
      for (let i = 0; i < xs.length; i++) {
        yield* at(xs[i][0], (x) => put(new Map(xs.map((y, j) => (j === i ? [x, y[1]] : y)))));
        yield* at(xs[i][1], (x) => put(new Map(xs.map((y, j) => (j === i ? [y[0], x] : y)))));
      }
    } else if (n && typeof n === 'object') {
      const ks = Object.keys(n);
      const set_ = (k, x) => put({ ...n, [k]: x });
      for (const k of ks) {
        const { [k]: _, ...rest } = n;
        yield put(rest);
        yield put(n[k]);
        for (const nk of menu.keys) if (nk !== k && !(nk in n)) yield put(Object.fromEntries(ks.map((q) => [q === k ? nk : q, n[q]])));
      }
      for (const nk of menu.keys) if (!(nk in n)) { for (const a of menu.appends) yield set_(nk, a); }
      if (ks.length > 1) { yield put(Object.fromEntries(ks.slice().reverse().map((k) => [k, n[k]]))); yield put(ks.map((k) => n[k])); }
      for (const k of ks) yield* at(n[k], (x) => set_(k, x));
    }
  }
}
