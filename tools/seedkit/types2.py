exec(open(K + '/types1.py').read())
TSH = EVAL + '''
const ts = require('typescript'), os = require('os'), path = require('path');
const types = lines.map(l => `type ${l.name} = ${l.ts};`).join(' ');
const tsok = (n, text, want) => {
  const d = fs.mkdtempSync(path.join(os.tmpdir(), 'demo'));
  fs.writeFileSync(d + '/a.ts', `${types} export const x: ${n} = ${text};`);
  const di = ts.getPreEmitDiagnostics(ts.createProgram([d + '/a.ts'], {strict: true, noEmit: true, types: [], target: ts.ScriptTarget.ES2022}));
  fs.rmSync(d, {recursive: true});
  if ((di.length === 0) !== want) { bad++; console.log('FAIL', n, text, want ? 'does not compile:' : 'compiles', di.map(x => ts.flattenDiagnosticMessageText(x.messageText, ' ')).join()); }
  ok(n, eval('(' + text + ')'), want);
};
'''
TY = '#[derive(Zod, serde::Deserialize, serde::Serialize)]\n#[zod(namespace = "Ns")]\n'
SEEDS = [
 dict(id='c03-u128-bigint', property='C03', needs='a u128', breaks='the TypeScript type is bigint, the schema is that of a number',
  edits=[('core/src/build_ins.rs', '"number",\n    u128,', '"bigint",\n    u128,')],
  main=HEAD+PR+'fn main() { p::<u128>("T"); }\n', check=TSH+'tsok("T", "7", true);'+END),
 dict(id='c03-transparent-default', property='C03', needs='undefined for a transparent struct whose field has #[serde(default)]', breaks='the schema takes it, the TypeScript type does not',
  edits=[('derive/src/impl_struct.rs', """            (false, _, true, true) => {
                quote_spanned! {ty.span() =>  format!("{} | undefined", #ty::inline()) }""", """            (false, _, true, true) => {
                quote_spanned! {ty.span() => #ty::inline().to_string() }""")],
  main=HEAD+PR+TY+'#[serde(transparent)]\nstruct T { #[serde(default)] x: u8 }\nfn main() { p::<T>("T"); }\n', check=TSH+'tsok("T", "1", true); tsok("T", "undefined", true); tsok("T", "null", false);'+END),
 dict(id='c03-positional-default', property='C03', needs='undefined for the positional field with #[serde(default)] of a tuple struct', breaks='the schema takes it, the TypeScript type does not',
  edits=[('derive/src/impl_struct.rs', """quote_spanned! {ty.span() => format!("{} | undefined", #ty::inline())}""", """quote_spanned! {ty.span() => #ty::inline().to_string()}""")],
  main=HEAD+PR+TY+'struct T(u8, #[serde(default)] u8);\nfn main() { p::<T>("T"); }\n', check=TSH+'tsok("T", "[1, 2]", true); tsok("T", "[1, undefined]", true); tsok("T", "[undefined, 1]", false);'+END),
]
