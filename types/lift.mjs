// Rewrites the JSON form of a value into the form the generated types ask for: Map and Set where the type has them.
import { noDe, fkey, vkey } from './model.mjs';
const obj = (v) => v && typeof v === 'object' && !Array.isArray(v) && !(v instanceof Map) && !(v instanceof Set);
const keyOf = (kt, k) => {
  const s = String(k);
  return /^[ui](\d+|size)$/.test(kt.k) && /^-?\d+$/.test(s) ? Number(s) : kt.k === 'bool' && /^(true|false)$/.test(s) ? s === 'true' : s;
};
// fill: also write out the absent fields of structs as `undefined`
let filling = false;
export function fill(t, v, env) { filling = true; try { return lift(t, v, env); } finally { filling = false; } }
export function lift(t, v, env, n = 0) {
  if (n > 6) return v;
  const r = (t2, x) => lift(t2, x, env, n + 1);
  if (t.kind) return liftDecl(t, v, env, n + 1);
  switch (t.k) {
    case 'opt': return v === null || v === undefined ? v : r(t.t, v);
    case 'box': case 'wrap': return r(t.t, v);
    case 'vec': case 'arr': return Array.isArray(v) ? v.map((x) => r(t.t, x)) : v;
    case 'tup': return Array.isArray(v) ? v.map((x, i) => (t.ts[i] ? r(t.ts[i], x) : x)) : v;
    case "map": return obj(v) ? new Map(Object.entries(v).map(([k, x]) => [keyOf(t.kt, k), r(t.t, x)])) : v instanceof Map ? new Map([...v].map(([k, x]) => [keyOf(t.kt, k), r(t.t, x)])) : v;
    case 'set': return Array.isArray(v) ? new Set(v.map((x) => r(t.t, x))) : v instanceof Set ? new Set([...v].map((x) => r(t.t, x))) : v;
    case 'res': return obj(v) ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, k === 'Ok' ? r(t.t, x) : k === 'Err' ? r(t.e, x) : x])) : v;
    case 'ref': return env.has(t.name) ? liftDecl(env.get(t.name), v, env, n + 1) : v;
    default: return v;
  }
}
function body(style, fields, rule, v, env, n, newtype) {
  const fs = fields.filter((f) => !noDe(f));
  if (newtype) return fs[0] ? lift(fs[0].t, v, env, n) : v;
  if (style === 'tuple') return Array.isArray(v) ? v.map((x, i) => (fs[i] ? lift(fs[i].t, x, env, n) : x)) : v;
  if (style === 'named' && obj(v) && filling) { const w = { ...v }; for (const f of fs) if (!f.flatten && f.t.k === 'opt' && !(fkey(f, rule) in w)) w[fkey(f, rule)] = undefined; v = w; }
  if (style === 'named' && obj(v)) return Object.fromEntries(Object.entries(v).map(([k, x]) => { const f = fs.find((q) => !q.flatten && (fkey(q, rule) === k || q.alias === k)); return [k, f ? lift(f.t, x, env, n) : x]; }));
  return v;
}
function liftDecl(d, v, env, n) {
  if (d.from) return lift(d.from, v, env, n);
  if (d.kind === 'struct') return body(d.style, d.fields, d.ruleAll, v, env, n, d.transparent || (d.style === 'tuple' && d.fields.length === 1));
  const one = (x) => body(x.style, x.fields, x.ruleAll, undefined, env, n);
  void one;
  const nt = (x) => x.style === 'tuple' && x.fields.length === 1;
  if (d.tagging === 'un') { for (const x of d.variants) if (x.style !== 'unit') { const w = body(x.style, x.fields, x.ruleAll, v, env, n, nt(x)); if (w !== v) return w; } return v; }
  if (!obj(v)) return v;
  if (d.tagging === 'ext') return Object.fromEntries(Object.entries(v).map(([k, x]) => { const q = d.variants.find((y) => vkey(d, y) === k); return [k, q ? body(q.style, q.fields, q.ruleAll, x, env, n, nt(q)) : x]; }));
  const q = d.variants.find((y) => vkey(d, y) === v[d.tagging.tag]);
  if (!q) return v;
  if (d.tagging.content !== undefined) return d.tagging.content in v ? { ...v, [d.tagging.content]: body(q.style, q.fields, q.ruleAll, v[d.tagging.content], env, n, nt(q)) } : v;
  const { [d.tagging.tag]: t, ...rest } = v;
  const w = body(q.style, q.fields, q.ruleAll, rest, env, n, nt(q));
  return obj(w) ? { [d.tagging.tag]: t, ...w } : v;
}
