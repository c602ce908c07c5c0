// Judges the programs of one shard. usage: node run.cjs PROP PROGRAMS.json EXE TIER OUT.json
'use strict';
const fs = require('fs'), path = require('path');
const { spawn } = require('child_process');
const ts = require('typescript');
const zod = require('zod/v3');
const [, , PROP, FILE, EXE, TIER, OUT] = process.argv;
const thorough = TIER === 'thorough';
const programs = JSON.parse(fs.readFileSync(FILE, 'utf8')).filter(p => !process.env.ONLY || p.key === process.env.ONLY);
const st = { programs: 0, backends: 0, types: 0, methods: 0, values: 0, calls: 0, refused: 0, responses: 0, checks: 0, tsc_files: 0, steps: 0 };
const violations = [], samples = [], engine = [];
let cur;
const bad = (rule, what, more = '') => { what = what.replaceAll('_' + cur.id.slice(1), ''); const c = `${cur.key}|${rule}|${what}`.slice(0, 400); if (violations.length < 400 && !violations.some(v => v.case === c)) violations.push({ case: c, detail: what + more.replaceAll('_' + cur.id.slice(1), '') }); };
const J = JSON.stringify;

// ---------------------------------------------------------------- the Rust side
class Child {
  constructor() { this.start(); }
  start() {
    this.buf = ''; this.waiting = null; this.dead = false;
    this.p = spawn(EXE, [], { stdio: ['pipe', 'pipe', 'ignore'] });
    this.p.stdout.setEncoding('utf8');
    this.p.stdout.on('data', d => {
      this.buf += d;
      let i;
      while ((i = this.buf.indexOf('\n')) >= 0) { const l = this.buf.slice(0, i); this.buf = this.buf.slice(i + 1); const w = this.waiting; this.waiting = null; w(JSON.parse(l)); }
    });
    this.p.stdin.on('error', () => {});
    this.p.on('exit', () => { this.dead = true; if (this.waiting) { const w = this.waiting; this.waiting = null; w({ died: true }); } });
  }
  ask(o) {
    if (this.dead) this.start();
    return new Promise(r => { this.waiting = r; this.p.stdin.write(J(o) + '\n'); });
  }
}
let child;

// ---------------------------------------------------------------- values of a described type
// {js: what a caller passes, wire: its JSON}
const pair = (js, wire = js) => ({ js, wire });
const INTS = { u8: [0, 255], i8: [-128, 127], u16: [0, 65535], i16: [-32768, 32767], u32: [0, 4294967295], i32: [-2147483648, 2147483647], u64: [0, 2 ** 53], i64: [-(2 ** 53), 2 ** 53], usize: [0, 2 ** 53], isize: [-(2 ** 53), 2 ** 53], u128: [0, 2 ** 64], i128: [-(2 ** 64), 2 ** 64] };
const isInt = k => Object.hasOwn(INTS, k);
function values(p, t, d = 0, wide = false) {
  const one = x => values(p, x, d)[0];
  if (isInt(t[0]) && !['u8', 'i32'].includes(t[0])) return [pair(9), ...INTS[t[0]].map(x => pair(x))];
  switch (t[0]) {
    case 'u8': return wide ? [0, 7, 255].map(x => pair(x)) : [pair(7), pair(0)];
    case 'i32': return [pair(-5), pair(2147483647), pair(-2147483648)];
    case 'f32': return [pair(1.5), pair(-0.25), pair(16777216)];
    case 'f64': return [pair(1.5), pair(-2), pair(1e300)];
    case 'bool': return [pair(true), pair(false)];
    case 'char': return [pair('x'), pair('😀')];
    case 'String': return [pair('text'), pair(''), pair('"\\\n\u2028é')];
    case 'unit': return [pair(null)];
    case 'Option': return [one(t[1]), pair(null)].filter((x, i) => i || x).concat(wide && t[1][0] !== 'Option' ? values(p, t[1], d, true).slice(1) : []);
    case 'OptBox': return d > 2 ? [pair(null)] : [one(t[1]), pair(null)];
    case 'Box': return values(p, t[1], d, wide);
    case 'Vec': {
      if (d > 2) return [pair([])];
      const vs = values(p, t[1], d, wide).slice(0, 3);
      return [pair([vs[0].js], [vs[0].wire]), pair([]), pair(vs.concat(vs[0]).map(v => v.js), vs.concat(vs[0]).map(v => v.wire))];
    }
    case 'Set': { const v = values(p, t[1], d); return [pair(new Set([v[0].js]), [v[0].wire]), pair(new Set(), [])]; }
    case 'array': return [pair(Array(t[2]).fill(one(t[1]).js), Array(t[2]).fill(one(t[1]).wire))];
    case 'Map': {
      if (d > 2) return [pair(new Map(), {})];
      const vs = values(p, t[2], d), ks = t[1][0] === 'i8' ? [1, -128] : isInt(t[1][0]) ? [1, 200] : t[1][0] === 'bool' ? [true, false] : t[1][0] === 'char' ? ['k', 'é'] : ['key', ''];
      return [pair(new Map([[ks[0], vs[0].js]]), { [ks[0]]: vs[0].wire }), pair(new Map(), {}), pair(new Map(ks.map((k, i) => [k, vs[i % vs.length].js])), Object.fromEntries(ks.map((k, i) => [k, vs[i % vs.length].wire])))];
    }
    case 'tuple': {
      const xs = t.slice(1).map(x => values(p, x, d));
      const out = [pair(xs.map(x => x[0].js), xs.map(x => x[0].wire))];
      if (wide) xs.forEach((x, i) => x.slice(1).forEach(v => out.push(pair(xs.map((y, j) => (i === j ? v : y[0]).js), xs.map((y, j) => (i === j ? v : y[0]).wire)))));
      return out;
    }
    case 'Result': { const a = one(t[1]), b = one(t[2]); return [pair({ Ok: a.js }, { Ok: a.wire }), pair({ Err: b.js }, { Err: b.wire })]; }
    case 'ref': return forms(p, t[1], d + 1);
  }
  throw new Error('type ' + t);
}
// every variant and a value of every field
function forms(p, i, d) {
  const t = p.types[i], m = `m${i}`;
  const f = t.refs.map(r => values(p, r, d));
  const obj = (base, pick) => pair(Object.assign({}, base, ...f.map((v, j) => ({ [`r${j}`]: pick(v, j).js }))), Object.assign({}, base, ...f.map((v, j) => ({ [`r${j}`]: pick(v, j).wire }))));
  const alt = f.flatMap((v, j) => v.slice(1).map(x => (w, k) => (k === j ? x : w[0])));
  const picks = [v => v[0], ...(d > 1 ? [] : alt)];
  switch (t.form) {
    case 'named': return picks.map(q => obj({ [m]: 1 }, q));
    case 'tuple': return f.length ? picks.map(q => pair([3, ...f.map((v, j) => q(v, j).js)], [3, ...f.map((v, j) => q(v, j).wire)])) : [pair([3, true])];
    case 'newtype': return f.length ? f[0] : [pair(4)];
  }
  const tag = (n, c) => (t.form === 'ext' ? pair(c ? { [n]: c.js } : n, c ? { [n]: c.wire } : n)
    : t.form === 'adj' ? pair(c ? { t: n, c: c.js } : { t: n }, c ? { t: n, c: c.wire } : { t: n })
      : t.form === 'int' ? pair({ t: n, ...(c && c.js) }, { t: n, ...(c && c.wire) }) : c);
  const un = t.form === 'unt';
  const out = [];
  f.forEach((v, j) => {
    for (const x of d > 1 ? v.slice(0, 1) : v) out.push(tag(`Rr${j}`, pair({ [`r${j}`]: x.js }, { [`r${j}`]: x.wire })));
    if (t.form === 'ext' || t.form === 'adj') {
      if (!(v[0].js === undefined)) out.push(tag(`Tt${j}`, v[0]));
      out.push(tag(`Uu${j}`, pair([1, v[0].js], [1, v[0].wire])));
    }
  });
  out.push(tag(un ? 'Mm' : 'Nn', pair({ [m]: 2 })));
  if (!un) out.push(tag(`Mm${i}`));
  return out;
}
// values no type of the description admits where t is expected
function wrong(p, t) {
  const out = [Symbol.for('x'), undefined];
  if (['Option', 'OptBox'].includes(t[0])) out.pop();
  if (t[0] === 'Box') return wrong(p, t[1]);
  if (t[0] === 'unit') out.push(0, 'x', {});
  else if (isInt(t[0])) out.push('1', null, 1.5, true, t[0][0] === 'u' ? -1 : -(2 ** 127), /128/.test(t[0]) ? 1e21 : /64|size/.test(t[0]) ? 2 ** 70 : INTS[t[0]][1] + 1);
  else if (t[0] === 'f64' || t[0] === 'f32') out.push('1', null, Infinity);
  else if (t[0] === 'bool') out.push(0, 'true', null);
  else if (t[0] === 'char') out.push('', 'ab', 1, null);
  else if (t[0] === 'String') out.push(1, null, ['x']);
  else if (t[0] === 'Vec') out.push(null, 'x', {}, ...wrong(p, t[1]).slice(2, 5).map(x => [x]));
  else if (t[0] === 'array') out.push(null, [], Array(t[2] + 1).fill(values(p, t[1])[0].js), Array(t[2] - 1).fill(values(p, t[1])[0].js));
  else if (t[0] === 'Map') out.push(null, 1, 'x');
  else if (t[0] === 'Set') out.push(null, 1, 'x');
  else if (t[0] === 'tuple') out.push(null, [], [...t.slice(1).map(x => values(p, x)[0].js), 1, 2]);
  else if (t[0] === 'ref') out.push(123.5, ['x', 'y', 'z', 'w'], 'neither', ...(lax(p.types[t[1]]) ? [] : [{ nope: 1 }]));
  else if (t[0] === 'Result') out.push(null, ...(t.slice(1).some(x => x[0].startsWith('Opt')) ? [] : [{ ok: 1 }, {}]), 5); // known: optional-content
  else if (t[0] === 'Option' || t[0] === 'OptBox') out.push(...wrong(p, t[1]).filter(x => x !== null && x !== undefined && typeof x !== 'symbol').slice(0, 4));
  return out;
}
const eqJSON = (a, b) => {
  if (a === b) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || !a || !b || Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a), kb = Object.keys(b);
  return ka.length === kb.length && ka.every(k => Object.hasOwn(b, k) && eqJSON(a[k], b[k]));
};

// ---------------------------------------------------------------- the module as a program
const PRE = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS };
function parse(text) { return ts.createSourceFile('m.ts', text, ts.ScriptTarget.ES2020, true); }
// [namespace path, kind, name] of everything exported from a namespace
function declared(sf) {
  const out = [];
  const walk = (ns, block) => {
    for (const s of block.statements) {
      if (ts.isModuleDeclaration(s)) { inner(ns, s); continue; }
      const names = ts.isVariableStatement(s) ? s.declarationList.declarations.map(d => [s.declarationList.flags & ts.NodeFlags.Const ? 'const' : 'var', d.name.text])
        : ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s) ? [['type', s.name.text]]
          : ts.isFunctionDeclaration(s) ? [['function', s.name.text]] : s.kind === ts.SyntaxKind.EmptyStatement ? [] : [['other', ts.SyntaxKind[s.kind]]];
      const exported = s.modifiers && s.modifiers.some(m => m.kind === ts.SyntaxKind.ExportKeyword);
      for (const [k, n] of names) out.push(`${ns} ${exported ? '' : 'hidden '}${k} ${n}`);
    }
  };
  const inner = (ns, s) => { const n = ns ? ns + '.' + s.name.text : s.name.text; if (ts.isModuleDeclaration(s.body)) inner(n, s.body); else walk(n, s.body); };
  for (const s of sf.statements) if (ts.isModuleDeclaration(s)) inner('', s);
  return out;
}
const tick = () => new Promise(r => setImmediate(r));
function load(text) {
  const js = ts.transpileModule(text, { compilerOptions: PRE }).outputText;
  const sockets = [];
  class WebSocket {
    constructor(url) { this.url = url; this.readyState = 0; this.sent = []; this.l = {}; sockets.push(this); }
    send(t) { if (this.readyState !== 1) throw new Error('InvalidStateError'); this.sent.push(t); }
    close() { if (this.readyState < 2) this.readyState = 2; }
    addEventListener(t, f) { (this.l[t] ||= []).push(f); }
    removeEventListener(t, f) { this.l[t] = (this.l[t] || []).filter(g => g !== f); }
    fire(t, e) { for (const f of [this['on' + t], ...(this.l[t] || [])]) if (f) f.call(this, Object.assign({ type: t, target: this }, e)); }
    open() { this.readyState = 1; this.fire('open'); }
    message(o) { this.fire('message', { data: J(o) }); }
  }
  Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
  const quiet = new Proxy({}, { get: () => () => {} });
  const m = { exports: {} };
  new Function('require', 'exports', 'module', 'WebSocket', 'setTimeout', 'clearTimeout', 'console', js)(n => { if (n !== 'zod') throw new Error('require ' + n); return zod; }, m.exports, m, WebSocket, () => 1, () => {}, quiet);
  return { exports: m.exports, sockets };
}
const at = (o, path) => path.split('.').reduce((x, k) => x && x[k], o);
const tsLit = v => (v === undefined ? 'undefined' : v instanceof Map ? `new Map${v.size === 1 ? '' : '<any, any>'}([${[...v].map(([k, x]) => `[${tsLit(k)}, ${tsLit(x)}]`).join()}])` : v instanceof Set ? `new Set<any>([${[...v].map(tsLit).join()}])` : Array.isArray(v) ? `[${v.map(tsLit).join()}]` : v && typeof v === 'object' ? `{${Object.entries(v).map(([k, x]) => `${J(k)}: ${tsLit(x)}`).join()}}` : J(v));

// files for one tsc program at the end
const files = new Map();
async function modules(p) {
  cur = p;
  for (const [j, b] of p.backends.entries()) {
    const key = `${p.id}b${j}`;
    const dump = await child.ask({ op: 'dump', key });
    st.backends++; st.steps++;
    if (dump.died) { bad('generate', `backend ${j}: the generator does not return`); continue; }
    if ('panic' in dump) { bad('generate', `backend ${j}: the generator panics: ${dump.panic}`); continue; }
    p.module = p.module || {}; p.module[j] = dump.module;
    if (PROP !== 'C06') continue;
    const inB = i => b.ns.includes(i);
    const want = [];
    for (const t of p.types) if (inB(t.ns)) want.push(`${p.ns[t.ns]} const ${t.client}`, `${p.ns[t.ns]} type ${t.client}`);
    for (const m of p.methods) if (inB(m.ns)) want.push(`${p.ns[m.ns]} function ${m.name}`);
    const sf = parse(dump.module);
    if (sf.parseDiagnostics.length) { bad('syntax', `backend ${j}: ${ts.flattenDiagnosticMessageText(sf.parseDiagnostics[0].messageText, '\n')}`); continue; }
    const have = declared(sf);
    const diff = (a, b) => { const c = [...b]; return a.filter(x => { const i = c.indexOf(x); if (i >= 0) c.splice(i, 1); return i < 0; }); };
    for (const x of diff(want, have)) bad('missing', `backend ${j} (${b.ns.map(i => p.ns[i])}): no ${x}`);
    for (const x of diff(have, want)) bad('extra', `backend ${j} (${b.ns.map(i => p.ns[i])}): ${x}`);
    st.checks += want.length;
    // the listings
    const flat = Object.entries(dump.types).flatMap(([ns, l]) => l.map(([n, x]) => (n === ns ? `${n} ${x}` : `${n} under ${ns}`)));
    const wantT = p.types.filter(t => inB(t.ns)).map(t => `${p.ns[t.ns]} ${t.client}`);
    if (J(flat.sort()) !== J(wantT.sort())) bad('listing', `backend ${j}: zod_namespaces lists ${J(flat)} instead of ${J(wantT)}`);
    const fl = Object.entries(dump.methods).flatMap(([ns, l]) => l.map(x => `${ns} ${(/function\s+([^\s(]+)\s*\(/.exec(x) || [])[1]}`));
    const wantM = p.methods.filter(m => inB(m.ns)).map(m => `${p.ns[m.ns]} ${m.name}`);
    if (J(fl.sort()) !== J(wantM.sort())) bad('listing', `backend ${j}: rpc_members lists ${J(fl)} instead of ${J(wantM)}`);
    if (J(dump.names) !== J(b.ns.map(i => p.ns[i]))) bad('listing', `backend ${j}: NS_NAMES is ${J(dump.names)}`);
    // it loads, and every reference resolves to the right type
    let mod;
    try { mod = load(dump.module).exports; } catch (e) { bad('load', `backend ${j}: ${e}`); continue; }
    const complete = p.types.every(t => inB(t.ns)) || !p.types.some((t, i) => inB(t.ns) && refsOf(p, i).some(r => !inB(p.types[r].ns)));
    const use = [`import * as z from "zod";`, `import * as M from "./${key}";`];
    p.types.forEach((t, i) => {
      if (!inB(t.ns)) return;
      st.types++;
      const o = at(mod, p.ns[t.ns]);
      const s = o && o[t.client];
      if (!s || typeof s.safeParse !== 'function') return bad('schema', `backend ${j}: ${p.ns[t.ns]}.${t.client} is not a schema`);
      if (!complete) return;
      const vs = forms(p, i, 0);
      st.values += vs.length; st.steps += vs.length;
      for (const v of vs) {
        let r; try { r = s.safeParse(v.js); } catch (e) { bad('reference', `${p.ns[t.ns]}.${t.client} throws`, ` on ${J(v.wire)}: ${e}`); break; }
        if (!r.success) { bad('reference', `${p.ns[t.ns]}.${t.client} refuses ${J(v.wire)}`); break; }
      }
      for (const v of misplaced(p, i)) {
        st.steps++;
        let r; try { r = s.safeParse(v); } catch (e) { bad('reference', `${p.ns[t.ns]}.${t.client} throws on a wrong value`, `: ${J(v)}: ${e}`); break; }
        if (r.success) { bad('reference', `${p.ns[t.ns]}.${t.client} accepts ${J(v)}, with a value of another type inside`); break; }
      }
      vs.slice(0, 6).forEach((v, k) => use.push(`export const v${i}_${k}: M.${p.ns[t.ns]}.${t.client} = ${tsLit(v.js)};`));
      misplaced(p, i).slice(0, 3).forEach((v, k) => use.push('// @ts-expect-error', `export const w${i}_${k}: M.${p.ns[t.ns]}.${t.client} = ${tsLit(v)};`));
    });
    for (const m of p.methods) if (inB(m.ns)) {
      st.methods++;
      const o = at(mod, p.ns[m.ns]);
      if (!o || typeof o[m.name] !== 'function') { bad('schema', `backend ${j}: ${p.ns[m.ns]}.${m.name} is not a function`); continue; }
      if (!complete) continue;
      // typed arguments and results
      const vs = m.args.map(([, t]) => values(p, t)[0]);
      const r = values(p, m.ret)[0];
      const n = use.length;
      use.push(m.kind === 'method' ? `export async function u${n}() { const r = await M.${p.ns[m.ns]}.${m.name}(${vs.map(v => tsLit(v.js))}); let x: typeof r = ${tsLit(r.js)}; return x; }`
        : `export function u${n}(): () => void { const s = M.${p.ns[m.ns]}.${m.name}(${vs.map(v => tsLit(v.js))}); s.close(); return s.subscribe(r => { let x: typeof r = ${tsLit(r.js)}; return x; }); }`);
      use.push('// @ts-expect-error', m.kind === 'method' ? `export const g${n} = async () => { const r = await M.${p.ns[m.ns]}.${m.name}(${vs.map(v => tsLit(v.js))}); const y: typeof r = Symbol.iterator; };`
        : `export const g${n} = () => M.${p.ns[m.ns]}.${m.name}(${vs.map(v => tsLit(v.js))}).subscribe(r => { const y: typeof r = Symbol.iterator; });`);
      if (m.args.length) use.push('// @ts-expect-error', `export const e${n} = () => M.${p.ns[m.ns]}.${m.name}(${vs.slice(1).map(v => tsLit(v.js))});`, '// @ts-expect-error', `export const f${n} = () => M.${p.ns[m.ns]}.${m.name}(${['Symbol.iterator', ...vs.slice(1).map(v => tsLit(v.js))]});`);
    }
    files.set(`/x/${key}.ts`, { text: dump.module, p });
    files.set(`/x/${key}.use.ts`, { text: use.join('\n') + '\nexport {};\n', p });
    if (samples.length < 2 && want.length > 4) samples.push({ program: p.key, backend: b.ns.map(i => p.ns[i]), declared: have });
  }
}
function refsOf(p, i) { const out = []; const f = t => { if (t[0] === 'ref') out.push(t[1]); else t.slice(1).forEach(x => Array.isArray(x) && f(x)); }; p.types[i].refs.forEach(f); return out; }
// a value of the holder in which one reference holds something its target does not admit
// known (C01: optional-content) or right: an enum one of whose variants may be left out admits every object
const lax = x => ['ext', 'unt'].includes(x.form) && x.refs.some(r => r[0].startsWith('Opt'));
function misplaced(p, i) {
  const t = p.types[i];
  if (lax(t)) return [];
  const inside = r => { // a wrong value for the reference inside the wrapper
    if (r[0] === 'ref') return lax(p.types[r[1]]) ? undefined : { odd: 1 };
    if (r[0] === 'OptBox' || r[0] === 'Option' || r[0] === 'Box') return inside(r[1]);
    if (r[0] === 'Vec') { const x = inside(r[1]); return x === undefined ? x : [x]; }
    if (r[0] === 'array') { const x = inside(r[1]); return x === undefined ? x : Array(r[2]).fill(x); }
    if (r[0] === 'Map') { const x = inside(r[2]); return x === undefined ? x : new Map([['k', x]]); }
    if (r[0] === 'tuple') { const k = r.slice(1).findIndex(x => inside(x) !== undefined); return k < 0 ? undefined : r.slice(1).map((x, n) => (n === k ? inside(x) : values(p, x)[0].js)); }
    if (r[0] === 'Result') { const k = inside(r[1]) !== undefined ? 1 : 2; const x = inside(r[k]); return x === undefined ? x : { [k === 1 ? 'Ok' : 'Err']: x }; }
    return undefined;
  };
  const out = [];
  t.refs.forEach((r, j) => {
    const x = inside(r);
    if (x === undefined) return;
    const g = t.refs.map((y, k) => (k === j ? x : values(p, y, 1)[0].js));
    if (t.form === 'named') out.push(Object.assign({ [`m${i}`]: 1 }, ...g.map((v, k) => ({ [`r${k}`]: v }))));
    if (t.form === 'tuple') out.push([3, ...g]);
    if (t.form === 'newtype') out.push(x);
    const o = { [`r${j}`]: x };
    if (t.form === 'ext') out.push({ [`Rr${j}`]: o }, { [`Tt${j}`]: x }, { [`Uu${j}`]: [1, x] });
    if (t.form === 'adj') out.push({ t: `Rr${j}`, c: o }, { t: `Tt${j}`, c: x });
    if (t.form === 'int') out.push({ t: `Rr${j}`, ...o });
    if (t.form === 'unt') out.push(o);
  });
  return out;
}
function typecheck() {
  const opt = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10 ?? 2, noEmit: true, strict: true, noImplicitAny: false, types: [], lib: ['lib.es2020.d.ts', 'lib.dom.d.ts'], skipLibCheck: true, ignoreDeprecations: '6.0' };
  if (+ts.version.split('.')[0] < 6) delete opt.ignoreDeprecations;
  const host = ts.createCompilerHost(opt);
  const rf = host.readFile, fe = host.fileExists, gs = host.getSourceFile;
  host.fileExists = f => files.has(f) || fe(f);
  host.readFile = f => (files.has(f) ? files.get(f).text : rf(f));
  host.getSourceFile = (f, ...a) => (files.has(f) ? ts.createSourceFile(f, files.get(f).text, a[0], true) : gs(f, ...a));
  const zdir = require.resolve('zod/package.json').replace(/package\.json$/, '');
  host.resolveModuleNames = (names, from) => names.map(n => (n === 'zod' ? { resolvedFileName: path.join(zdir, 'v3/index.d.cts') } : n.startsWith('./') && files.has(`/x/${n.slice(2)}.ts`) ? { resolvedFileName: `/x/${n.slice(2)}.ts` } : ts.resolveModuleName(n, from, opt, host).resolvedModule));
  const prog = ts.createProgram([...files.keys()], opt, host);
  for (const [f, { p }] of files) {
    cur = p;
    st.tsc_files++;
    const sf = prog.getSourceFile(f);
    const ds = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)];
    for (const d of ds.slice(0, 40)) {
      const pos = sf.getLineAndCharacterOfPosition(d.start || 0);
      bad('tsc', `${f.endsWith('.use.ts') ? 'use' : 'module'}: ${ts.flattenDiagnosticMessageText(d.messageText, '\n').replace(/ on type '.*/s, '').slice(0, 200)}`,
        ` at: ${sf.text.split('\n').slice(pos.line, pos.line + 2).join(' ').trim().slice(0, 260)}`);
    }
  }
}

// ---------------------------------------------------------------- C07: calls
async function call(p, j, m, c, argv, want, ret) {
  // want: wires of the arguments, or null if the call must be refused
  const o = at(c.exports, p.ns[m.ns]);
  const f = o && o[m.name];
  const who = `${p.ns[m.ns]}.${m.name}(${argv.map(a => { try { return typeof a === 'symbol' ? 'symbol' : a === undefined ? 'undefined' : J(a instanceof Map ? [...a] : a instanceof Set ? [...a] : a); } catch { return '?'; } })})`;
  if (typeof f !== 'function') return bad('call', `backend ${j}: ${who}: no such function`);
  st.calls++; st.steps++;
  for (const s of c.sockets) s.sent.length = 0;
  const result = { state: 'pending' }, items = [];
  let off = () => {};
  try {
    const r = f(...argv);
    if (m.kind === 'method') r.then(v => { result.state = 'ok'; result.value = v; }, e => { result.state = 'err'; result.value = e; });
    else off = r.subscribe(v => items.push(v));
  } catch (e) { result.state = 'err'; result.value = e; }
  await tick();
  for (const s of c.sockets) if (s.readyState === 0) s.open();
  await tick();
  const sent = c.sockets.flatMap(s => s.sent);
  const done = () => { off(); };
  if (want === null) {
    st.refused++;
    if (sent.length) bad('refuse', `${who} is sent as ${sent[0]}`);
    else if (result.state !== 'err') bad('refuse', `${who} is ${result.state === 'ok' ? 'answered' : 'not refused'}`);
    return done();
  }
  if (result.state === 'err') { bad('refused', `${who}: ${String(result.value).slice(0, 200)}`); return done(); }
  if (sent.length !== 1) { bad('sent', `${who} sends ${sent.length} requests`); return done(); }
  const r = await child.ask({ op: 'serve', key: `${p.id}b${j}`, wire: sent[0], ret: J(ret) ?? 'null' });
  st.steps++;
  if (r.died || 'panic' in r) { bad('server', `${who}, sent as ${sent[0]}: the server ${r.died ? 'dies' : 'panics: ' + r.panic}`); return done(); }
  const ran = J(r.calls.map(x => x.slice(0, 2)));
  if (ran !== J([[p.ns[m.ns], m.name]])) { bad('runs', `${who} runs ${ran}`, `; sent as ${sent[0]}; answers ${J(r.responses).slice(0, 200)}`); return done(); }
  const got = r.calls[0][2].map(x => JSON.parse(x));
  if (!eqJSON(got, want)) { bad('arguments', `${who}: the method gets ${J(got)} instead of ${J(want)}`); return done(); }
  const live = c.sockets.find(s => s.readyState === 1);
  if (!live) { bad('answer', `${who}: no connection is left to answer on`); return done(); }
  for (const x of r.responses) { st.responses++; live.message(x); await tick(); }
  if (m.kind === 'method') {
    if (result.state !== 'ok') bad('answer', `${who} is ${result.state} after ${J(r.responses)}`);
    else if (!eqJSON(result.value, ret)) bad('answer', `${who} resolves with ${J(result.value)} instead of ${J(ret)}`);
  } else if (!eqJSON(items, ret)) bad('items', `${who} gets ${J(items)} instead of ${J(ret)}`);
  if (samples.length < 2 && argv.length > 1) samples.push({ program: p.key, call: who, wire: sent[0], ran: r.calls, responses: r.responses });
  done();
}
async function calls(p) {
  cur = p;
  for (const [j, b] of p.backends.entries()) {
    if (!p.module || p.module[j] === undefined) continue;
    const missing = p.types.some((t, i) => b.ns.includes(t.ns) && refsOf(p, i).some(r => !b.ns.includes(p.types[r].ns)));
    if (missing) continue;
    let c;
    try { c = load(p.module[j]); } catch (e) { bad('load', `backend ${j}: ${e}`); continue; }
    for (const m of p.methods) {
      if (!b.ns.includes(m.ns)) {
        continue;
      }
      st.methods++;
      const vs = m.args.map(([, t]) => values(p, t, 0, true));
      const rets = values(p, m.ret, 0, true).map(v => v.wire);
      const stream = m.kind !== 'method';
      const R = stream ? [rets, [], [rets[0]], [rets[0], rets[0]]] : rets;
      let k = 0;
      // all combinations of up to three arguments, one argument at a time for longer lists; every returned value
      const lim = m.args.length > 3 ? 1 : m.args.length === 3 ? 3 : 8;
      let combos = [[]];
      if (m.args.length > 3) { combos = [vs.map(v => v[0])]; vs.forEach((v, i) => v.slice(1, 4).forEach(x => combos.push(vs.map((w, n) => (n === i ? x : w[0]))))); }
      else for (const v of vs) combos = combos.flatMap(q => v.slice(0, lim).map(x => [...q, x]));
      while (combos.length < R.length) combos.push(combos[0]);
      for (const q of combos) { await call(p, j, m, c, q.map(x => x.js), q.map(x => x.wire), R[k++ % R.length]); }
      // refused
      const good = vs.map(v => v[0].js);
      for (let i = 0; i < vs.length; i++) for (const w of wrong(p, m.args[i][1])) await call(p, j, m, c, good.map((g, n) => (n === i ? w : g)), null);
      if (good.length) {
        const last = m.args[good.length - 1][1][0];
        await call(p, j, m, c, good.slice(0, -1), null);
        if (good.length > 1) await call(p, j, m, c, [], null);
      }
      await call(p, j, m, c, [...good, 1], null);
    }
  }
}

(async () => {
  process.on('unhandledRejection', () => {});
  child = new Child();
  for (const p of programs) {
    st.programs++;
    await modules(p);
    if (PROP === 'C06') {
      for (let i = 0; i < p.ns.length; i++) {
        cur = p;
        const r = await child.ask({ op: 'members', key: `${p.id}n${i}` });
        const want = p.types.filter(t => t.ns === i).map(t => [p.ns[i], t.client]).sort();
        if (r.died || 'panic' in r || r.name !== p.ns[i] || J([...r.members].sort()) !== J(want)) bad('listing', `Namespace::members of ${p.ns[i]} is ${J(r.members ? { name: r.name, members: [...r.members].map(x => J(x)).sort() } : r)} instead of ${J(want)}`);
      }
    }
    if (PROP === 'C07') await calls(p);
    delete p.module;
  }
  if (PROP === 'C06') typecheck();
  child.p.kill();
  fs.writeFileSync(OUT, J({ st, violations, samples, engine }));
  process.exit(0);
})().catch(e => { console.error(e); process.exit(3); });
