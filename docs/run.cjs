// usage: node run.cjs CHUNKS.json MODULES.jsonl OUT.json
// Every type's text is in a comment attached to each of its declarations, and without comments the module is that of the twin without texts.
'use strict';
const fs = require('fs'), path = require('path');
const ts = require('typescript');
const zod = require('zod/v3');
const [, , CH, MOD, OUT] = process.argv;
const chunks = JSON.parse(fs.readFileSync(CH, 'utf8'));
const mods = new Map(fs.readFileSync(MOD, 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l)).map(m => [m.key, m]));
const st = { texts: 0, types: 0, comments: 0, modules: 0, steps: 0, tsc_files: 0 };
const violations = [], engine = [], samples = [], files = new Map();
const J = JSON.stringify;
const show = x => `${x.form}|${x.inner ? 'inside' : 'type'}|${x.how}|${J(x.pieces)}`;
const bad = (key, rule, what) => { if (violations.length < 300) violations.push({ case: `${key}|${rule}`.slice(0, 300), detail: what.slice(0, 600) }); };
const printer = ts.createPrinter({ removeComments: true });
function namespaces(sf) {
  const out = new Map();
  const walk = (s, pre) => {
    const n = pre + s.name.text;
    if (s.body && ts.isModuleDeclaration(s.body)) walk(s.body, n + '.');
    else if (s.body) out.set(n, [...(out.get(n) || []), ...s.body.statements]);
  };
  for (const s of sf.statements) if (ts.isModuleDeclaration(s)) walk(s, '');
  return out;
}
const nameOf = s => (ts.isVariableStatement(s) ? ['const', s.declarationList.declarations[0].name.text] : ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s) ? ['type', s.name.text] : ts.isFunctionDeclaration(s) ? ['function', s.name && s.name.text] : ['other', '']);
// the lines of a text or of a comment, without decoration; `*\/` stands for the end of a comment
const clean = l => l.replaceAll('*\\/', '*/').replace(/^[\s*]+/, '').trim();
const linesOf = t => t.split(/\r\n|\n|\r|\u2028/).map(clean).filter(l => l);
function carried(text, comments) {
  // each line in order
  const want = linesOf(text);
  let k = 0;
  for (const c of comments) {
    const body = c.replace(/^\/\*+/, '').replace(/\*\/$/, '');
    for (const l of linesOf(body)) if (k < want.length && l === want[k]) k++;
  }
  return k === want.length ? null : want[k];
}
for (const [c, items] of chunks) {
  const d = mods.get('d' + c), u = mods.get('u' + c);
  if (!d || !u || d.panic || u.panic) { bad(show(items[0]), 'generate', 'the generator panics'); continue; }
  st.modules += 2;
  const text = d.module.replaceAll(`N${c}d`, `N${c}`), plain = u.module.replaceAll(`N${c}u`, `N${c}`);
  const sf = ts.createSourceFile('d.ts', text, ts.ScriptTarget.ES2020, true), su = ts.createSourceFile('u.ts', plain, ts.ScriptTarget.ES2020, true);
  let failed = sf.parseDiagnostics.length > su.parseDiagnostics.length;
  const nd = namespaces(sf).get(`N${c}`) || [], nu = namespaces(su).get(`N${c}`) || [];
  const print = (s, f) => printer.printNode(ts.EmitHint.Unspecified, s, f);
  const by = (list, f) => { const m = new Map(); for (const s of list) { const [k, n] = nameOf(s); const key = `${k} ${n}`; if (!m.has(key)) m.set(key, []); m.get(key).push(s); } return m; };
  const bd = by(nd), bu = by(nu);
  const reported = violations.length;
  const known = new Set(items.flatMap(x => [`const T${x.i}`, `type T${x.i}`]));
  for (const x of items) {
    st.types++; st.texts++;
    for (const k of ['const', 'type']) {
      const key = `${k} T${x.i}`, a = bd.get(key) || [], b = bu.get(key) || [];
      st.steps++;
      if (a.length !== 1 || b.length !== 1 || print(a[0], sf) !== print(b[0], su)) { bad(show(x), `defines ${k}`, `with the text: ${a.map(s => print(s, sf)).join(' ').slice(0, 200)} -- without: ${b.map(s => print(s, su)).join(' ').slice(0, 200)}`); continue; }
      const ranges = ts.getLeadingCommentRanges(text, a[0].getFullStart()) || [];
      const cs = ranges.map(r => text.slice(r.pos, r.end));
      st.comments += cs.length;
      const want = x.inner ? '' : x.text;
      const miss = carried(want, cs);
      if (miss !== null) bad(show(x), `carries ${k}`, `the line ${J(miss)} is not in the comments ${J(cs)} before ${key}`);
      if (!linesOf(want).length && cs.some(t => linesOf(t.replace(/^\/\*+/, '').replace(/\*\/$/, '')).length)) bad(show(x), `alone ${k}`, `${key} has no text but the comments ${J(cs)}`);
      if (samples.length < 3 && cs.length && x.pieces.length > 1) samples.push({ text: x.text, before: key, comment: cs[0] });
    }
  }
  const rest = f => l => l.filter(s => !known.has(nameOf(s).join(' '))).map(s => print(s, f)).join('\n');
  const whole = s => printer.printFile(s);
  if (violations.length === reported && (failed || rest(sf)(nd) !== rest(su)(nu) || whole(sf) !== whole(su))) bad(show(items[0]) + ` and the ${items.length - 1} after it`, 'module', 'without comments the module is not that of the same types without texts');
  try {
    const js = ts.transpileModule(text, { compilerOptions: { module: 'commonjs', target: 'es2020' } }).outputText;
    const m = { exports: {} };
    const quiet = new Proxy({}, { get: () => () => {} });
    new Function('require', 'exports', 'module', 'WebSocket', 'setTimeout', 'clearTimeout', 'console', js)(() => zod, m.exports, m, class { addEventListener() {} send() {} close() {} }, () => 1, () => {}, quiet);
    for (const x of items) if (!(m.exports[`N${c}`] && m.exports[`N${c}`][`T${x.i}`] && typeof m.exports[`N${c}`][`T${x.i}`].safeParse === 'function')) bad(show(x), 'loads', 'no schema');
  } catch (e) { if (violations.length === reported) bad(show(items[0]), 'loads', String(e)); }
  files.set(`/x/d${c}.ts`, { text, items });
}
// whether it compiles
{
  const opt = { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10 ?? 2, noEmit: true, strict: false, types: [], lib: ['lib.es2020.d.ts', 'lib.dom.d.ts'], skipLibCheck: true };
  if (+ts.version.split('.')[0] >= 6) opt.ignoreDeprecations = '6.0';
  const host = ts.createCompilerHost(opt);
  const rf = host.readFile, fe = host.fileExists, gs = host.getSourceFile;
  host.fileExists = f => files.has(f) || fe(f);
  host.readFile = f => (files.has(f) ? files.get(f).text : rf(f));
  host.getSourceFile = (f, ...a) => (files.has(f) ? ts.createSourceFile(f, files.get(f).text, a[0], true) : gs(f, ...a));
  const zdir = require.resolve('zod/package.json').replace(/package\.json$/, '');
  host.resolveModuleNames = (names, from) => names.map(n => (n === 'zod' ? { resolvedFileName: path.join(zdir, 'v3/index.d.cts') } : ts.resolveModuleName(n, from, opt, host).resolvedModule));
  const prog = ts.createProgram([...files.keys()], opt, host);
  for (const [f, { items }] of files) {
    st.tsc_files++;
    const sf = prog.getSourceFile(f);
    const ds = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)];
    if (ds.length && !violations.length) {
      const line = sf.text.slice(0, ds[0].start).match(/T(\d+)/g);
      const i = line ? +line[line.length - 1].slice(1) : -1;
      bad(show(items.find(x => x.i === i) || items[0]), 'tsc', ts.flattenDiagnosticMessageText(ds[0].messageText, ' '));
    }
  }
}
fs.writeFileSync(OUT, J({ st, violations, samples, engine }));
