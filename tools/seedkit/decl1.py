REF = open(K + '/demo_refused.sh').read()
A, ST, EN, DOC, S = 'derive/src/rpc/args.rs', 'derive/src/impl_struct.rs', 'derive/src/impl_enum/mod.rs', 'derive/src/docs.rs', 'core/src/rpc/server.rs'
PRE = '#![allow(warnings)]\n'
NS = '#[derive(zod::Namespace%s)]\npub struct Ns;\n#[zod::rpc::namespace]\nimpl Ns {\n    %s\n}\n#[derive(zod::rpc::Backend)]\npub struct B(pub Ns);\n'
MAIN = 'fn main() {}\n'
TY = '#[derive(zod::Zod, serde::Serialize)]\n#[zod(namespace = "Ns")]\n'
GEN = 'fn main() { use zod::rpc::Backend as _; print!("{}", B::generate::<zod::rpc::clients::WebsocketClient>()); }\n'
DOCS = '''const fs = require('fs'), ts = require('typescript');
const src = ts.createSourceFile('m.ts', fs.readFileSync(process.argv[2], 'utf8'), ts.ScriptTarget.ES2020, true);
const docs = {};
const walk = n => { const name = n.name ? n.name.text : ts.isVariableStatement(n) ? n.declarationList.declarations[0].name.text : null; if (name) for (const d of n.jsDoc || []) (docs[name] ??= []).push([ts.SyntaxKind[n.kind], d.getText()]); ts.forEachChild(n, walk); };
walk(src);
let bad = 0;
const has = (name, kind, text) => { if (!(docs[name] || []).some(([k, d]) => k === kind && d.includes(text))) { bad++; console.log('FAIL', name, kind, 'has no documentation with', text, JSON.stringify(docs[name])); } };
'''
END = '\nprocess.exit(bad ? 1 : 0);\n'
SEEDS = [
 dict(id='c18-mut-self-of-a-copy', property='C18', needs='a namespace that is Copy, with a method that takes `mut self`',
  breaks='the method is accepted, and works on a copy of the state of the connection: what it changes is lost',
  edits=[(A, '''                (Some(_), None) => abort!(
                    receiver.self_token.span,
                    "zod: expected `&mut self` got `mut self`.",
                ),''', '''                (Some(_), None) => {}''')], demo=REF,
  files={'good.rs': PRE + NS % (', Clone, Copy', 'pub async fn get(&mut self) -> u8 { 0 }') + MAIN, 'refused.rs': PRE + NS % (', Clone, Copy', 'pub async fn get(mut self) -> u8 { 0 }') + MAIN}),
 dict(id='c18-patterns-as-arguments', property='C18', needs='a method with an argument that is a pattern',
  breaks='the method is accepted, and the pattern is the name of the argument on the client, which is not TypeScript',
  edits=[(A, '''                        _ => abort_call_site!("Expected an ident, got {:?}", t.pat),''', '''                        syn::Pat::Wild(_) | syn::Pat::Tuple(_) => {
                            t.pat.to_token_stream().to_string()
                        }
                        _ => abort_call_site!("Expected an ident, got {:?}", t.pat),'''),
   (A, '                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),', '                        syn::Pat::Ident(pat) => pat.ident.unraw().to_string(),')], demo=REF,
  files={'good.rs': PRE + NS % ('', 'pub async fn get(&mut self, a: (u8, u8)) -> u8 { 0 }') + MAIN, 'refused.rs': PRE + NS % ('', 'pub async fn get(&mut self, (a, b): (u8, u8)) -> u8 { 0 }') + MAIN}),
 dict(id='c18-enums-not-registered', property='C18', needs='a struct or an enum with the name of another enum of the namespace',
  breaks='both are accepted, and the client has two declarations of the same name',
  edits=[(EN, '''                #inventory

                #type_register

            }
        }
    }

    fn abort_empty''', '''                #inventory

            }
        }
    }

    fn abort_empty''')], demo=REF,
  files={'good.rs': PRE + NS % ('', '') + TY + 'pub enum T { A, B }\n' + 'mod m { use super::Ns;\n' + TY + 'pub enum U { A, B }\n}\n' + MAIN, 'refused.rs': PRE + NS % ('', '') + TY + 'pub enum T { A, B }\n' + 'mod m { use super::Ns;\n' + TY + 'pub enum T { A, B }\n}\n' + MAIN}),
 dict(id='c17-last-line-only', property='C17', needs='documentation of several lines or attributes',
  breaks='only the last line reaches the client',
  edits=[(DOC, '''                        if !full_docs.is_empty() {
                            full_docs += "\\n";
                        }
                        full_docs += doc_str;''', '''                        if !doc_str.is_empty() {
                            full_docs = doc_str.to_string();
                        }''')],
  main=PRE + NS % ('', '') + '/// first line\n/// second line\n' + TY + 'pub struct T { pub a: u8 }\n' + GEN,
  check=DOCS + "has('T', 'InterfaceDeclaration', 'first line'); has('T', 'InterfaceDeclaration', 'second line');" + END),
 dict(id='c17-no-docs-of-aliases', property='C17', needs='documentation of a type whose TypeScript declaration is an alias',
  breaks='the declaration of the type has no documentation, only its schema does',
  edits=[(S, '''                                            "{}export type {}{}{} = {};",
                                            (def.docs)().unwrap_or_default(),''', '''                                            "export type {}{}{} = {};",''')],
  main=PRE + NS % ('', '') + '/// some text\n' + TY + 'pub enum E { A, B }\n/// more text\n' + TY + 'pub struct T { pub a: u8 }\n' + GEN,
  check=DOCS + "has('E', 'TypeAliasDeclaration', 'some text'); has('T', 'InterfaceDeclaration', 'more text');" + END),
 dict(id='c17-one-doc-attribute', property='C17', needs='a documentation comment of which a line is like another one',
  breaks='the lines that are there already are left out',
  edits=[(DOC, '''                        full_docs += doc_str;''', '''                        if !full_docs.lines().any(|line| line == doc_str) {
                            full_docs += doc_str;
                        }''')],
  main=PRE + NS % ('', '') + '/// one\n/// two\n/// one\n/// three\n' + TY + 'pub struct T { pub a: u8 }\n' + GEN,
  check=DOCS + "const t = (docs.T || []).map(d => d[1]).join(); if (t.split('one').length < 5) { bad++; console.log('FAIL', t); }" + END),
]
