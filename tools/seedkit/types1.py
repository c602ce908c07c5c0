HEAD = '''#![allow(dead_code)]
use zod::{Namespace, Zod, ZodType};
#[derive(Namespace)]
struct Ns;
'''
EVAL = '''const fs = require('fs'); const { z } = require('zod');
const lines = fs.readFileSync(process.argv[2], 'utf8').trim().split('\\n').map(l => JSON.parse(l));
const Ns = {};
for (const l of lines) if (l.name) Ns[l.name] = new Function('z', 'Ns', 'return ' + l.schema)(z, Ns);
let bad = 0;
const ok = (n, v, want) => { const r = Ns[n].safeParse(v).success; if (r !== want) { bad++; console.log('FAIL', n, JSON.stringify(v), 'accepted:', r, 'expected:', want); } };
'''
END = '\nprocess.exit(bad ? 1 : 0);\n'
PR = 'fn p<T: ZodType>(name: &str) { println!("{}", serde_json::json!({"name": name, "schema": T::schema(), "ts": T::type_def().to_string()})); }\n'
SEEDS = [
 dict(id='c05-variant-serialize-name', property='C05', needs='an enum variant whose serde rename differs between serialization and deserialization',
  breaks='the schema and type use the key serde writes instead of the one it reads',
  edits=[('derive/src/impl_enum/variant/mod.rs', 'serde_variant.attrs.name().deserialize_name()', 'serde_variant.attrs.name().serialize_name()')],
  main=HEAD+PR+'''
#[derive(Zod, serde::Deserialize, serde::Serialize)]
#[zod(namespace = "Ns")]
enum E { #[serde(rename(serialize = "out", deserialize = "in"))] A, B }
fn main() { p::<E>("E"); assert!(serde_json::from_str::<E>("\\"in\\"").is_ok()); }
''', check=EVAL+'ok("E", "in", true); ok("E", "out", false);'+END),
 dict(id='c02-default-path', property='C02', needs='#[serde(default = "path")] on a field of a struct variant',
  breaks='the field is required by the schema although serde does not need it',
  edits=[('derive/src/impl_enum/field.rs', '''                            name: names::property(&f.attrs.name().deserialize_name()),
                            optional: !f.attrs.default().is_none(),''', '''                            name: names::property(&f.attrs.name().deserialize_name()),
                            optional: matches!(
                                f.attrs.default(),
                                serde_derive_internals::attr::Default::Default
                            ),''')],
  main=HEAD+PR+'''
fn one() -> u8 { 1 }
#[derive(Zod, serde::Deserialize)]
#[zod(namespace = "Ns")]
enum E { A { #[serde(default = "one")] x: u8, #[serde(default)] y: u8 }, B }
fn main() { p::<E>("E"); assert!(serde_json::from_str::<E>("{\\"A\\":{}}").is_ok()); }
''', check=EVAL+'ok("E", {A: {y: 1}}, true); ok("E", {A: {x: 1}}, true); ok("E", {A: {}}, true);'+END),
 dict(id='c04-i16-lower-bound', property='C04', needs='the smallest i16', breaks='i16::MIN is refused by the client',
  edits=[('core/src/build_ins.rs', 'gte(-32768)', 'gt(-32768)')],
  main=HEAD+PR+'fn main() { p::<i16>("T"); p::<Vec<(i16,)>>("V"); }\n', check=EVAL+'ok("T", -32768, true); ok("T", -32769, false); ok("V", [[-32768]], true);'+END),
 dict(id='c04-i32-upper-bound', property='C04', needs='2147483648 as an i32', breaks='the schema of i32 accepts one number beyond i32::MAX, which the server refuses',
  edits=[('core/src/build_ins.rs', '''    i32,
    "z.number().finite().int().lte(2147483647)''', '''    i32,
    "z.number().finite().int().lt(2147483648.5)''')],
  main=HEAD+PR+'fn main() { p::<i32>("T"); }\n', check=EVAL+'ok("T", 2147483647, true); ok("T", 2147483648, false);'+END),
 dict(id='c01-skip-serializing-variant', property='C01', needs='an enum variant with #[serde(skip_deserializing)] next to others',
  breaks='the schema admits a variant the server refuses',
  edits=[('derive/src/impl_enum/mod.rs', '.filter(|(_, ast)| !ast.attrs.skip_deserializing())', '.filter(|(_, ast)| !(ast.attrs.skip_deserializing() && ast.attrs.skip_serializing()))')],
  main=HEAD+PR+'''
#[derive(Zod, serde::Deserialize, serde::Serialize)]
#[zod(namespace = "Ns")]
enum E { A(u8), #[serde(skip_deserializing)] B(u8), #[serde(skip)] C }
fn main() { p::<E>("E"); assert!(serde_json::from_str::<E>("{\\"B\\":1}").is_err()); }
''', check=EVAL+'ok("E", {A: 1}, true); ok("E", {B: 1}, false);'+END),
 dict(id='c03-map-key-type', property='C03', needs='a map whose key type is not a string', breaks='the TypeScript type of a map with integer keys is Map<string, V> while its schema wants the keys as numbers',
  edits=[('core/src/build_ins.rs', 'format!("Map<{}, {}>", K::inline(), V::inline())', 'format!("Map<string, {}>", V::inline())')],
  main=HEAD+PR+'fn main() { p::<std::collections::HashMap<u8, String>>("T"); p::<Vec<std::collections::BTreeMap<u8, u8>>>("V"); }\n',
  check=EVAL+'''ok("T", new Map([[1, "a"]]), true);
const ts = require('typescript'); const os = require('os'), path = require('path');
const d = fs.mkdtempSync(path.join(os.tmpdir(), 'demo'));
fs.writeFileSync(d + '/a.ts', `type T = ${lines[0].ts}; type V = ${lines[1].ts}; export const x: T = new Map([[1, "a"]]); export const y: V = [new Map([[1, 2]])];`);
const prog = ts.createProgram([d + '/a.ts'], {strict: true, noEmit: true, types: [], target: ts.ScriptTarget.ES2022});
const di = ts.getPreEmitDiagnostics(prog); if (di.length) { bad++; console.log(ts.flattenDiagnosticMessageText(di[0].messageText, ' ')); }
fs.rmSync(d, {recursive: true});'''+END),
]
