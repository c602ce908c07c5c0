// usage: node run.cjs WANT.json MODULES.jsonl OUT.json -- every accepted declaration is in a module that loads
'use strict';
const fs = require('fs'), ts = require('typescript'), zod = require('zod/v3');
const [, , WANT, MOD, OUT] = process.argv;
const want = new Map(JSON.parse(fs.readFileSync(WANT, 'utf8')).map(w => [w.k, w]));
const st = { modules: 0, members: 0 }, violations = [];
const bad = (w, rule, what) => violations.push({ case: `${w.key}|${rule}`, detail: what });
const quiet = new Proxy({}, { get: () => () => {} });
const memo = new Map();
for (const l of fs.readFileSync(MOD, 'utf8').split('\n').filter(Boolean)) {
  const m = JSON.parse(l), w = want.get(m.k);
  if (!w) continue;
  if (m.panic) { bad(w, 'panic', 'the generator panics'); continue; }
  st.modules++;
  const x = { exports: {} };
  try {
    const js = ts.transpileModule(m.module, { compilerOptions: { module: 'commonjs', target: 'es2020' } }).outputText;
    new Function('require', 'exports', 'module', 'WebSocket', 'setTimeout', 'clearTimeout', 'console', js)(() => zod, x.exports, x, class { addEventListener() {} send() {} close() {} }, () => 1, () => {}, quiet);
  } catch (e) { bad(w, 'loads', String(e)); continue; }
  for (const p of w.members) {
    const v = p.split('.').reduce((o, k) => (o === undefined || o === null || !Object.hasOwn(o, k) ? undefined : o[k]), x.exports);
    st.members++;
    if (!(typeof v === 'function' || (v && typeof v.safeParse === 'function'))) bad(w, 'there', `${p} is not in the module`);
  }
}
fs.writeFileSync(OUT, JSON.stringify({ st, violations }));
