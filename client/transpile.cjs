// node transpile.cjs IN.ts OUT.js: types removed, syntax errors reported
const ts = require('typescript'), fs = require('fs');
const r = ts.transpileModule(fs.readFileSync(process.argv[2], 'utf8'), { reportDiagnostics: true, compilerOptions: { module: 'commonjs', target: 'es2020' } });
if (r.diagnostics.length) { console.error(r.diagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')).slice(0, 5).join('\n')); process.exit(1); }
fs.writeFileSync(process.argv[3], r.outputText);
