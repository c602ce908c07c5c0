// Checks one shard of a corpus: node run.mjs <crate dir> <shard> <bin> <tier> <rules,comma separated> <out.json>
// Every candidate value of every type is judged by serde (through the binary), by zod (v3 API) and, for C03, by tsc.
import fs from 'node:fs';
import { spawnSync } from 'node:child_process';
import { createRequire } from 'node:module';
import { samples, declSamples, edits, show, same, rustTy, declSrc, noDe, fkey, vkey, RULES, fieldRule, variantRule, bare } from './model.mjs';
import { leaves } from './gen.mjs';
import { atomsFor, restricted, depth } from './atoms.mjs';
import { lift, fill } from './lift.mjs';

const req = createRequire('/opt/veriftools/node/node_modules/');
const { z } = req('zod/v3');
const ts = req('typescript');

const [, , dir, shardNo, bin, tier, rulesArg, outFile] = process.argv;
const rules = new Set(rulesArg.split(','));
const corpus = dir.replace(/.*types-/, '').replace(/-.*/, '');
const shard = JSON.parse(fs.readFileSync(`${dir}/shard${shardNo}.json`, 'utf8'));
const L = leaves();
const env = new Map([...L, ...shard.decls].map((d) => [d.name, d]));
const fail = (m) => { console.error(m); process.exit(3); };

// ------------------------------------------------------------------ what the library generates
function run(args, input) {
  const r = spawnSync(bin, args, { input, maxBuffer: 1 << 30, encoding: 'utf8' });
  return r;
}
const entries = [];
for (let from = 0; ;) {
  const r = run(['dump', String(from)]);
  for (const l of r.stdout.split('\n')) if (l) entries.push(JSON.parse(l));
  if (r.status === 0) break;
  // the process died inside entry `entries.length`: that type cannot even be described
  entries.push({ i: entries.length, crash: r.signal ?? r.status });
  from = entries.length;
  if (entries.length > 5000) fail('dump does not end');
}
const leafN = L.length;
const total = leafN + shard.decls.length + shard.types.length;
while (entries.length < total) { entries.push({ i: entries.length, crash: 'missing' }); }
if (entries.length > total) { if (entries.slice(total).some((e) => !e.crash)) fail(`dump has ${entries.length} entries, expected ${total}`); entries.length = total; }

const items = [];
entries.forEach((e, i) => {
  const d = i < leafN ? L[i] : i < leafN + shard.decls.length ? shard.decls[i - leafN] : null;
  const t = d ? null : shard.types[i - leafN - shard.decls.length];
  items.push({ i, e, d, t, leaf: i < leafN, key: d ? (i < leafN ? `leaf ${d.name}` : declSrc(d).replace(new RegExp(`\\b${d.name}\\b`), 'T')) : rustTy(t), tsName: d ? d.tsName ?? d.name : null });
});
// T-numbers inside a declaration (references to helper declarations) are kept: they are deterministic

// ------------------------------------------------------------------ the real client's encoding
const clientTs = run(['client']).stdout;
function clientWire() {
  try {
    const js = ts.transpileModule(clientTs.replace(/^import \* as z from "zod";?/m, ''), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022 } }).outputText;
    let last;
    class WS { static OPEN = 1; static CONNECTING = 0; static CLOSING = 2; static CLOSED = 3; constructor() { this.readyState = 1; } send(s) { last = s; } close() {} }
    const quiet = new Proxy({}, { get: () => () => {} });
    const ex = {};
    new Function('exports', 'WebSocket', 'console', 'performance', 'setTimeout', 'clearTimeout', 'z', js)(ex, WS, quiet, { now: () => 0 }, () => 0, () => {}, z);
    (function () { ex.subscribe('a', 'b', arguments); })(0);
    return { ready: () => new Promise((r) => setTimeout(r, 5)), wire: (v) => { last = undefined; (function () { ex.subscribe('a', 'b', arguments); })(v); const a = JSON.parse(last).exec.args; if (a.length !== 1) throw 0; return JSON.stringify(a[0]); } };
  } catch { return null; }
}
const plain = (v) => JSON.parse(JSON.stringify([v], (k, x) => (x instanceof Map ? Object.fromEntries(x) : x instanceof Set ? [...x] : x)))[0];
const fallback = (v) => JSON.stringify(plain(v));
let wireOf = fallback, wireSource = 'fallback';
const cw = clientWire();
if (cw) { try { await cw.ready(); cw.wire(1); wireOf = cw.wire; wireSource = 'client'; } catch { /* C07 and C14 judge the client itself */ } }
if (wireSource === 'client') { const w = wireOf; wireOf = (v) => { try { return w(v); } catch { return fallback(v); } }; }

// ------------------------------------------------------------------ zod
const Ns = {};
const byTs = new Map();
for (const it of items) if (it.tsName !== null) byTs.set(it.tsName, it);
const evalSchema = (text) => new Function('z', 'Ns', `return (${text}\n)`)(z, Ns);
for (const [n, it] of byTs) {
  let cache;
  Object.defineProperty(Ns, n, { enumerable: true, get() { if (!cache) { try { cache = { v: evalSchema(it.e.schema) }; } catch (err) { cache = { err }; } } if (cache.err) throw cache.err; return cache.v; } });
}
function schemaOf(it, which = 'schema') {
  if (it.e.crash !== undefined || it.e.panic) return { err: `no schema: the process died (${it.e.crash ?? 'panic'})` };
  try {
    emulated = false;
    const s = evalSchema(it.e[which]);
    if (emulated && which === 'schema') it.emulated = true;
    if (!s || typeof s.safeParse !== 'function') return { err: 'not a schema' };
    return { s };
  } catch (err) { return { err: `schema does not evaluate: ${String(err).slice(0, 80)}` }; }
}
const parse = (s, v) => { try { const r = s.safeParse(v); return r.success ? { ok: true, v: r.data } : { ok: false }; } catch (err) { return { ok: false, threw: String(err).slice(0, 100) }; } };

// zod 3 throws on `.extend(z.lazy(..))`, which is what #[serde(flatten)] generates. Reported per type (rule `schema`);
// to go on judging such types, the call is then given the one meaning it can have: extend by the fields of that object.
let emulated = false;
{
  const ext = z.ZodObject.prototype.extend;
  z.ZodObject.prototype.extend = function (arg) {
    if (!(arg instanceof z.ZodType)) return ext.call(this, arg);
    emulated = true;
    let a = arg, maybe = false;
    for (;;) {
      if (a instanceof z.ZodLazy) a = a.schema;
      else if (a instanceof z.ZodOptional || a instanceof z.ZodNullable) { a = a.unwrap(); maybe = true; }
      else break;
    }
    const all = a instanceof z.ZodObject ? ext.call(this, a.shape) : a instanceof z.ZodMap ? this.catchall(a._def.valueType) : this.and(a);
    return maybe ? all.or(this) : all;
  };
}

// ------------------------------------------------------------------ candidates
function declOf(name) { return env.get(name); }
function* declNames(d, deep = true) {
  if (!d) return;
  if (d.kind === 'struct') for (const f of d.fields) yield* fieldNames(f, d.ruleAll, d.style);
  else for (const v of d.variants) {
    yield { v: vkey(d, v) }; yield { v: bare(v.name) };
    if (v.style === 'named') for (const f of v.fields) yield* fieldNames(f, v.ruleAll, 'named');
  }
  if (d.kind === 'enum' && d.tagging.tag !== undefined) { yield { k: d.tagging.tag }; if (d.tagging.content !== undefined) yield { k: d.tagging.content }; }
  if (deep) for (const f of [...(d.fields ?? []), ...(d.variants ?? []).flatMap((v) => v.fields)]) { const r = findRef(f.t); if (r) yield* declNames(declOf(r), false); }
}
function* fieldNames(f, rule, style) { if (style === 'named') { yield { k: fkey(f, rule) }; yield { k: bare(f.name) }; if (f.alias) yield { k: f.alias }; if (f.serName) yield { k: f.serName }; } }
// every value with one key of one of its objects left out
function* omissions(v) {
  if (Array.isArray(v)) { for (let i = 0; i < v.length; i++) for (const x of omissions(v[i])) yield v.map((y, j) => (j === i ? x : y)); }
  else if (v && typeof v === 'object' && !(v instanceof Map) && !(v instanceof Set)) for (const k of Object.keys(v)) {
    const { [k]: gone, ...rest } = v;
    yield rest;
    for (const x of omissions(gone)) yield { ...v, [k]: x };
  }
}
const findRef = (t) => (t.k === 'ref' ? t.name : t.ts ? t.ts.map(findRef).find(Boolean) : t.t ? findRef(t.t) : undefined);

const ruled = (d) => corpus === 'names' && (d.ruleAll || (d.variants ?? []).some((v) => v.ruleAll));
function candidates(it) {
  const d = it.d;
  const keys = new Set(), vs = new Set();
  if (d) for (const n of declNames(d)) { if (n.k !== undefined) keys.add(n.k); if (n.v !== undefined) vs.add(n.v); }
  if (d && ruled(d)) {
    // the names the other rules would give
    for (const r of RULES) {
      for (const f of d.fields ?? (d.variants ?? []).flatMap((v) => v.fields)) keys.add(fieldRule(r, bare(f.name)));
      for (const v of d.variants ?? []) vs.add(variantRule(r, bare(v.name)));
    }
  }
  if (it.t) { const r = findRef(it.t); if (r) for (const n of declNames(declOf(r))) { if (n.k !== undefined) keys.add(n.k); if (n.v !== undefined) vs.add(n.v); } if (/Result/.test(rustTy(it.t))) { keys.add('Ok'); keys.add('Err'); } }
  keys.add('extra');
  const base = d ? declSamples(d, env) : samplesB(it.t);
  const menu = { atoms: [...atomsFor(corpus, it), ...vs], keys: [...keys], appends: [1, 's'], wraps: [...vs] };
  const out = new Map();
  const add = (v, edit) => { stats.edges++; const k = show(v); if (!out.has(k)) out.set(k, { v, text: k, edit }); };
  for (const b of base) add(b, 0);
  for (const b of base) for (const v of edits(b, menu)) add(v, 1);
  if (tier === 'thorough' && !(corpus === 'builtin' && it.t && depth(it.t) > 2)) {
    const small = { atoms: [undefined, null, 0, 's', {}, ...[...vs].slice(0, 2)], keys: [...keys].slice(0, 4), appends: [1], wraps: [...vs].slice(0, 1) };
    const cap = 12000, bases = rules.has('C01') || rules.has('C02') ? 2 : 1;
    outer: for (const b of base.slice(0, bases)) for (const v of edits(b, small)) for (const w of edits(v, small)) { add(w, 2); if (out.size > cap) { it.capped = true; break outer; } }
  }
  if (usesMaps(it)) for (const c of [...out.values()]) add(lift(it.d ?? it.t, c.v, env), c.edit);
  if (tier === 'thorough' && (rules.has('C03') || rules.has('C05')) && usesOptions(it)) for (const c of [...out.values()]) add(fill(it.d ?? it.t, c.v, env), c.edit);
  return [...out.values()];
}
const usesOptions = (it) => it.leaf || /Option</.test(it.key) || [...(it.d?.fields ?? []), ...(it.d?.variants ?? []).flatMap((v) => v.fields)].some((f) => findRef(f.t));
const usesMaps = (it) => /(Map|Set)</.test(it.key) || [...(it.d?.fields ?? []), ...(it.d?.variants ?? []).flatMap((v) => v.fields)].some((f) => findRef(f.t) && /(Map|Set)</.test(declSrc(declOf(findRef(f.t)))));
function samplesB(t) { return samples(t, env); }

// ------------------------------------------------------------------ evaluate
const stats = { types: 0, candidates: 0, serde_accepts: 0, zod_accepts: 0, zod_exact: 0, ts_checked: 0, ts_accepts: 0, values: 0, capped: 0, edges: 0, serde_runs: 0, wire: wireSource };
const violations = [];
const samplesOut = [];
const anon = (it, x) => (it.d && !it.leaf ? x.replaceAll(new RegExp(`\\b${it.d.name}\\b`, 'g'), 'T') : x);
const add = (rule, it, what, detail) => violations.push({ rule, key: it.key, what: anon(it, what), detail, gen: { schema: it.e.schema, type: it.e.type_def } });

const lines = [];
const lineIdx = new Map();
const want = (i, w) => { const k = `${i}\t${w}`; let n = lineIdx.get(k); if (n === undefined) { n = lines.length; lineIdx.set(k, n); lines.push(k); } return n; };
const judge = [];
const todo = items.filter((it) => !(it.leaf && shardNo !== '0') && (!process.env.ONLY || it.key === process.env.ONLY));
for (const it of todo) {
  it.cands = candidates(it);
  if (it.capped) stats.capped++;
  for (const c of it.cands) { c.wire = wireOf(c.v); if (c.wire === undefined) c.wire = 'null'; c.line = want(it.i, c.wire); }
}
function evalLines(from) {
  const r = run(['eval'], lines.slice(from).join('\n') + '\n');
  if (r.status !== 0) fail(`eval died: ${r.signal ?? r.status} ${r.stderr?.slice(0, 500)}`);
  for (const l of r.stdout.split('\n')) if (l) judge.push(JSON.parse(l));
  if (judge.length !== lines.length) fail('eval lost lines');
}
evalLines(0);
// second round: what the server itself sends, as javascript would send it back
const n1 = lines.length;
for (const it of todo) {
  it.server = new Map();
  for (const c of it.cands) {
    const r = judge[c.line];
    if (r.length === 3 && r[1] !== null && r[2] && !it.server.has(r[0])) {
      const jsv = JSON.parse(r[1]);
      it.server.set(r[0], { text: r[1], v: jsv, line: want(it.i, JSON.stringify(jsv)) });
    }
  }
}
if (lines.length > n1) evalLines(n1);

for (const it of todo) {
  stats.types++;
  const sch = schemaOf(it), inl = schemaOf(it, 'inline_schema');
  const d = it.d;
  if (sch.err || inl.err) {
    it.noSchema = true;
    for (const r of ['C01', 'C02', 'C03', 'C04', 'C05']) if (rules.has(r)) add(r, it, 'schema', sch.err ?? inl.err);
  }
  if (it.emulated) for (const r of ['C01', 'C02', 'C04', 'C05']) if (rules.has(r)) add(r, it, 'schema extends', `schema throws on every value: an object schema cannot be extended by a schema: ${it.e.schema}`);
  const reached = new Map(), admitted = new Set();
  for (const c of it.cands) {
    stats.candidates++;
    const r = judge[c.line];
    c.serde = r.length === 3;
    c.debug = c.serde ? r[0] : null;
    if (c.serde) { stats.serde_accepts++; if (!reached.has(c.debug)) reached.set(c.debug, c); }
    if (it.noSchema) continue;
    const p = parse(sch.s, c.v), q = parse(inl.s, c.v);
    c.zod = p.ok; c.exact = p.ok && same(p.v, c.v);
    if (p.threw) {
      it.threw = true;
    }
    if (p.ok) stats.zod_accepts++;
    if (c.exact) stats.zod_exact++;
    if (p.ok && c.serde) admitted.add(c.debug);
    if (p.ok !== q.ok && (rules.has('C03') || rules.has('C05') || rules.has('C04'))) add([...rules][0], it, `inline ${c.text}`, `schema ${p.ok ? 'accepts' : 'rejects'} ${c.text}, inline_schema ${q.ok ? 'accepts' : 'rejects'} it`);
    if (c.exact && !c.serde) for (const rule of ['C01', 'C04', 'C05']) if (rules.has(rule)) add(rule, it, `sound ${c.text}`, `schema accepts ${c.text}, sent as ${c.wire}, but serde refuses it: ${r[0]}`);
    if (p.threw && ['C01', 'C02', 'C04', 'C05'].some((x) => rules.has(x))) { if (!it.reportedThrow) { it.reportedThrow = true; it.noSchema = true; for (const rule of ['C01', 'C02', 'C04', 'C05']) if (rules.has(rule)) add(rule, it, 'schema', `schema throws on ${c.text}: ${p.threw}`); } }
    else if (p.threw) it.noSchema = true;
  }
  // what serde lets one leave out may be left out
  if (!it.noSchema && ['C02', 'C04', 'C05'].some((x) => rules.has(x))) {
    const texts = new Map(it.cands.map((c) => [c.text, c]));
    for (const c of it.cands) if (c.exact && c.serde) for (const v of omissions(c.v)) {
      const o = texts.get(show(v));
      if (o && o.serde && !o.zod && !o.omitted) { o.omitted = true; for (const rule of ['C02', 'C04', 'C05']) if (rules.has(rule)) add(rule, it, `omit ${o.text}`, `the schema accepts ${c.text}, and serde accepts ${o.wire} as well, but the schema rejects ${o.text}`); }
    }
  }
  stats.values += reached.size;
  if (reached.size === 0) add('engine', it, 'vacuous', 'no candidate is accepted by serde');
  if (!it.noSchema) for (const [dbg, c] of reached) {
    for (const rule of ['C02', 'C04', 'C05']) if (rules.has(rule)) {
      if (!admitted.has(dbg) && !(it.ownForm ??= new Map()).has(dbg)) { const own = it.server.get(dbg), b = own && judge[own.line]; it.ownForm.set(dbg, !!b && b.length === 3 && b[0] === dbg && (parse(sch.s, own.v).ok || parse(sch.s, lift(it.d ?? it.t, own.v, env)).ok)); }
      if (!admitted.has(dbg) && !it.ownForm.get(dbg)) add(rule, it, `complete ${dbg}`, `the value ${dbg} is reached by ${c.wire}, but the schema accepts no JSON for it`);
    }
  }
  if (!it.noSchema && !d?.asym) for (const [dbg, s] of it.server) {
    const back = judge[s.line];
    if (back.length === 3 && back[0] === dbg) {
      const p = parse(sch.s, s.v);
      if (p.ok) continue;
      // the plain form of a map or set, and nothing else, is in the way?
      const plainOnly = parse(sch.s, lift(it.d ?? it.t, s.v, env)).ok;
      for (const rule of ['C02', 'C04', 'C05']) if (rules.has(rule) && !(plainOnly && it.plainReported)) add(rule, it, plainOnly ? 'server plain map or set' : `server ${s.text}`, `the server sends ${s.text} for ${dbg}, the schema rejects it`);
      if (plainOnly) it.plainReported = true;
    }
  }
  if (samplesOut.length < 4 && it.cands.length) { const c = it.cands.find((x) => x.serde) ?? it.cands[0]; samplesOut.push({ type: it.key, schema: it.e.schema, value: c.text, wire: c.wire, serde: c.debug, zod: c.zod }); }
}

// ------------------------------------------------------------------ TypeScript
if (['C03', 'C04', 'C05'].some((r) => rules.has(r))) {
  const tsRule = ['C03', 'C04', 'C05'].find((r) => rules.has(r));
  const ident = (s) => /^[\p{L}_$][\p{L}\p{N}_$]*$/u.test(s);
  const syntaxOk = (text) => ts.createSourceFile('x.ts', text, ts.ScriptTarget.ES2022).parseDiagnostics.length === 0;
  const decls = [];
  for (const it of items) {
    it.tname = it.tsName ?? `B${it.i}`;
    let text;
    if (it.e.type_def === undefined) text = null;
    else text = it.e.kind === 'interface' ? `export interface ${it.tname} ${it.e.type_def}` : `export type ${it.tname} = ${it.e.type_def};`;
    if (text === null || !ident(it.tname) || !syntaxOk(`namespace Ns { ${text}\n}`)) {
      if (todo.includes(it) && text !== null) add(tsRule, it, 'ts-syntax', `not a TypeScript declaration: ${text}`);
      it.noTs = true;
      text = ident(it.tname) ? `export type ${it.tname} = any;` : '';
    }
    decls.push(text.replace(/\n/g, ' '));
  }
  const files = new Map();
  files.set('/types.ts', `export namespace Ns {\n${decls.join('\n')}\n}\n`);
  const where = new Map(); // file -> [item, cand] by line
  let body = [], meta = [];
  let nfile = 0;
  const flush = () => { if (body.length) { const f = `/c${nfile++}.ts`; files.set(f, `import { Ns } from "./types";\n${body.join('\n')}\nexport {};\n`); where.set(f, meta); body = []; meta = []; } };
  let n = 0;
  for (const it of todo) {
    if (it.noTs) continue;
    const T = `Ns.${it.tname}`;
    const inline = it.e.inline.replace(/\n/g, ' ');
    if (syntaxOk(`type X = ${inline};`)) {
      body.push(`{ let a!: ${T}; let b!: ${inline}; a = b; b = a; }`); meta.push({ it, inline });
    } else add(tsRule, it, 'ts-inline', `not a TypeScript type: ${it.e.inline}`);
    for (const c of it.cands) { if (corpus === 'builtin' && c.edit === 2) { c.noTs = true; continue; } body.push(`const c${n++}: ${T} = ${c.text};`); meta.push({ it, c }); if (body.length >= 4000) flush(); }
  }
  flush();
  const options = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2022, lib: ['lib.es2022.d.ts'], types: [], skipLibCheck: true, skipDefaultLibCheck: true, module: ts.ModuleKind.ESNext };
  const host = ts.createCompilerHost(options);
  const og = host.getSourceFile.bind(host);
  host.getSourceFile = (f, l) => (files.has(f) ? ts.createSourceFile(f, files.get(f), ts.ScriptTarget.ES2022) : og(f, l));
  const ofe = host.fileExists.bind(host); host.fileExists = (f) => files.has(f) || ofe(f);
  const orf = host.readFile.bind(host); host.readFile = (f) => files.get(f) ?? orf(f);
  const program = ts.createProgram([...files.keys()], options, host);
  for (const g of program.getGlobalDiagnostics()) fail('tsc: ' + ts.flattenDiagnosticMessageText(g.messageText, ' '));
  const diags = (f) => { const sf = program.getSourceFile(f); return [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)].map((x) => ({ line: sf.getLineAndCharacterOfPosition(x.start).line, msg: ts.flattenDiagnosticMessageText(x.messageText, ' ') })); };
  for (const x of diags('/types.ts')) { const it = items[x.line - 1]; if (it && todo.includes(it)) { add(tsRule, it, 'ts-decl', x.msg); } if (it) it.noTs = true; }
  for (const [f, meta] of where) {
    const bad = new Map();
    for (const x of diags(f)) bad.set(x.line - 1, x.msg);
    meta.forEach((m, i) => {
      if (m.it.noTs) return;
      if (m.inline !== undefined) { if (bad.has(i)) add(tsRule, m.it, 'ts-inline', `${m.inline} is not Ns.${m.it.tname}: ${bad.get(i)}`); return; }
      m.c.ts = !bad.has(i); m.c.tsMsg = bad.get(i);
      stats.ts_checked++; if (m.c.ts) stats.ts_accepts++;
    });
  }
  for (const it of todo) {
    if (it.noTs) continue;
    const tsWires = new Map();
    for (const c of it.cands) if (c.ts) tsWires.set(c.wire, c);
    for (const c of it.cands) {
      if (c.noTs || restricted(corpus, it, c)) continue;
      if (!it.noSchema) {
        if (c.exact && !c.ts && !tsWires.has(c.wire)) add(tsRule, it, `ts-rejects ${c.text}`, `schema accepts ${c.text}, TypeScript type ${it.e.type_def} does not: ${c.tsMsg}`);
        if (c.ts && !c.zod) add(tsRule, it, `ts-accepts ${c.text}`, `TypeScript type ${it.e.type_def} admits ${c.text}, the schema rejects it`);
      } else {
        // no usable schema (a finding of its own): hold the TypeScript type against serde
        if (c.edit === 0 && c.serde && !c.ts && !tsWires.has(c.wire)) add(tsRule, it, `ts-rejects-serde ${c.text}`, `serde accepts ${c.text}, TypeScript type ${it.e.type_def} does not: ${c.tsMsg}`);
        if (c.ts && !c.serde) add(tsRule, it, `ts-accepts-serde ${c.text}`, `TypeScript type ${it.e.type_def} admits ${c.text}, serde refuses ${c.wire}`);
      }
    }
  }
}
stats.serde_runs = lines.length;
fs.writeFileSync(outFile, JSON.stringify({ stats, violations, samples: samplesOut }));
