PRE = '''#![allow(warnings)]
use zod::rpc::Backend as _;
'''
GEN = 'fn main() { print!("{}", B::generate::<zod::rpc::clients::WebsocketClient>()); }\n'
LOAD = '''const fs = require('fs'), ts = require('typescript'), zod = require('zod/v3');
const js = ts.transpileModule(fs.readFileSync(process.argv[2], 'utf8'), { compilerOptions: { module: 'commonjs', target: 'es2020' } }).outputText;
process.on('unhandledRejection', () => {});
const sent = [];
class WS { constructor() { this.readyState = 1; setImmediate(() => this.onopen && this.onopen({})); } send(t) { sent.push(JSON.parse(t).exec); } close() {} addEventListener(t, f) { if (t === 'open') setImmediate(() => f({})); } removeEventListener() {} }
Object.assign(WS, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
const quiet = new Proxy({}, { get: () => () => {} });
const m = { exports: {} };
new Function('require', 'exports', 'module', 'WebSocket', 'setTimeout', 'clearTimeout', 'console', js)(n => n === 'zod' ? zod : null, m.exports, m, WS, () => 1, () => {}, quiet);
const M = m.exports;
const tick = () => new Promise(r => setImmediate(r));
let bad = 0;
const eq = (a, b, what) => { if (JSON.stringify(a) !== JSON.stringify(b)) { bad++; console.log('FAIL', what, 'is', JSON.stringify(a), 'should be', JSON.stringify(b)); } };
(async () => {
'''
T = '\n})().then(() => process.exit(bad ? 1 : 0), e => { console.log(e); process.exit(1); });\n'
S, L, C = 'core/src/rpc/server.rs', 'core/src/lib.rs', 'core/src/rpc/codegen/mod.rs'
F = 'src/rpc/clients/static/websocket_client.ts'
TY = lambda ns, n: f'#[derive(zod::Zod, serde::Serialize, serde::Deserialize)]\n#[zod(namespace = "{ns}")]\npub struct {n} {{ pub a: u8 }}\n'
SEEDS = [
 dict(id='c06-namespace-without-types', property='C06', needs='a namespace that has methods and no types',
  breaks='the methods of such a namespace are not generated',
  edits=[(S, '''            let s = records.entry(name).or_default();
            write!(s, "{}", code).unwrap();''', '''            if let Some(s) = records.get_mut(name) {
                write!(s, "{}", code).unwrap();
            }''')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct Typed;
#[zod::rpc::namespace]
impl Typed { pub async fn get(&mut self, n: u8) -> u8 { n } }
''' + TY('Typed', 'User') + '''#[derive(zod::Namespace)]
pub struct Plain;
#[zod::rpc::namespace]
impl Plain { pub async fn ping(&mut self) -> u8 { 1 } }
#[derive(zod::rpc::Backend)]
struct B(Typed, Plain);
'''+GEN,
  check=LOAD+'''eq(typeof (M.Typed && M.Typed.get), 'function', 'Typed.get'); eq(typeof (M.Plain && M.Plain.ping), 'function', 'Plain.ping');'''+T),
 dict(id='c06-prefix-namespace', property='C06', needs='a namespace outside the backend whose name begins the name of one inside',
  breaks='the types of that namespace are generated too',
  edits=[(S, '.filter(|(ns, _)| Self::NS_NAMES.contains(ns))', '.filter(|(ns, _)| Self::NS_NAMES.iter().any(|name| name.starts_with(ns)))')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct User;
''' + TY('User', 'Secret') + '''#[derive(zod::Namespace)]
pub struct UserAdmin;
#[zod::rpc::namespace]
impl UserAdmin { pub async fn ping(&mut self) -> u8 { 1 } }
''' + TY('UserAdmin', 'Item') + '''#[derive(zod::rpc::Backend)]
struct B(UserAdmin);
'''+GEN,
  check=LOAD+'''eq(typeof M.User, 'undefined', 'the namespace the backend does not have'); eq(typeof M.UserAdmin.Item, 'object', 'UserAdmin.Item');'''+T),
 dict(id='c06-same-name-in-two-namespaces', property='C06', needs='types of the same name in two namespaces',
  breaks='only one of them is generated',
  edits=[(L, '''            out.entry(def.namespace()).or_default().push(def);''', '''            if !out.values().flatten().any(|known| known.name() == def.name()) {
                out.entry(def.namespace()).or_default().push(def);
            }''')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct One;
''' + TY('One', 'User') + '''#[derive(zod::Namespace)]
pub struct Two;
mod two { use super::Two;
''' + TY('super::Two', 'User') + '''}
#[zod::rpc::namespace]
impl One {}
#[zod::rpc::namespace]
impl Two {}
#[derive(zod::rpc::Backend)]
struct B(One, Two);
'''+GEN,
  check=LOAD+'''eq(typeof (M.One && M.One.User), 'object', 'One.User'); eq(typeof (M.Two && M.Two.User), 'object', 'Two.User');'''+T),
 dict(id='c06-listing-one-method', property='C06', needs='a namespace with several methods, and a look at the run-time listing',
  breaks='rpc_members() lists one method of each namespace',
  edits=[(S, 'out.entry(member.ns_name()).or_default().push(member.decl());', 'out.insert(member.ns_name(), vec![member.decl()]);')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct One;
#[zod::rpc::namespace]
impl One { pub async fn get(&mut self) -> u8 { 1 } pub async fn put(&mut self, n: u8) {} }
#[derive(zod::rpc::Backend)]
struct B(One);
fn main() {
    let m = B::rpc_members();
    println!("{m:?}");
    assert_eq!(m["One"].len(), 2);
}
'''),
 dict(id='c07-surplus-arguments', property='C07', needs='a call of a stream method with more arguments than it has',
  breaks='the surplus is not refused by the client: the request is sent',
  edits=[(C, '''Store<{res}> {{
                    {phantom_arg_names}

                    z.tuple([{arg_zod}]).parse([...arguments]);''', '''Store<{res}> {{
                    {phantom_arg_names}

                    z.tuple([{arg_zod}]).parse([...arguments].slice(0, {}));'''), (C, '''\\"{name}\\", arguments);
                }};"
                )
            }
        }
    }
''', '''\\"{name}\\", arguments);
                }};",
                    args.len()
                )
            }
        }
    }
''')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct One;
#[zod::rpc::namespace]
impl One { pub fn count(&mut self, n: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter(vec![n]) } }
#[derive(zod::rpc::Backend)]
struct B(One);
'''+GEN,
  check=LOAD+'''let refused = false; try { M.One.count(1, 2); } catch (e) { refused = true; } await tick(); await tick();
  eq([refused, sent.length], [true, 0], 'a call with too many arguments: refused, requests sent');'''+T),
 dict(id='c07-single-array-argument', property='C07', needs='a stream method whose only argument is an array',
  breaks='the elements of the array are sent as the arguments',
  edits=[(F, 'let req = { req_id, namespace, method, args: [...args] };', 'let list = args.length === 1 && Array.isArray(args[0]) ? args[0] : [...args];\n  let req = { req_id, namespace, method, args: list };')],
  main=PRE+'''#[derive(zod::Namespace)]
pub struct One;
#[zod::rpc::namespace]
impl One { pub fn watch(&mut self, ids: Vec<u8>) -> impl futures::Stream<Item = u8> { futures::stream::iter(ids) } }
#[derive(zod::rpc::Backend)]
struct B(One);
'''+GEN,
  check=LOAD+'''M.One.watch([3, 4]); await tick(); await tick();
  eq(sent.map(s => s.args), [[[3, 4]]], 'the arguments that are sent');'''+T),
]
