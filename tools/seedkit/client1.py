MAIN = '''use zod::rpc::Backend as _;
#[derive(zod::Namespace)]
pub struct Main;
#[zod::rpc::namespace]
impl Main {
    pub async fn get(&mut self, n: u8) -> u8 { n }
    pub fn count(&mut self, n: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter(vec![n]) }
}
#[derive(zod::rpc::Backend)]
struct B(Main);
fn main() { print!("{}", B::generate::<zod::rpc::clients::WebsocketClient>()); }
'''
H = '''const fs = require('fs'), ts = require('typescript'), zod = require('zod');
const js = ts.transpileModule(fs.readFileSync(process.argv[2], 'utf8'), { compilerOptions: { module: 'commonjs', target: 'es2020' } }).outputText;
process.on('unhandledRejection', () => {});
const sockets = []; let timers = [], now = 0, tid = 0;
class WS {
  constructor() { this.readyState = 0; this.sent = []; this.l = {}; sockets.push(this); }
  send(t) { if (this.readyState === 0) throw new Error('InvalidStateError'); this.sent.push(JSON.parse(t).exec); }
  close() { if (this.readyState < 2) this.readyState = 2; }
  addEventListener(t, f) { (this.l[t] = this.l[t] || []).push(f); }
  removeEventListener(t, f) { this.l[t] = (this.l[t] || []).filter(g => g !== f); }
  fire(t, e) { for (const f of [this['on' + t], ...(this.l[t] || [])]) if (f) f.call(this, Object.assign({ type: t, target: this }, e)); return tick(); }
  open() { this.readyState = 1; return this.fire('open'); }
  async lose() { this.readyState = 3; await this.fire('close'); }
  async refuse() { this.readyState = 3; await this.fire('error'); await this.fire('close'); }
  msg(o) { return this.fire('message', { data: JSON.stringify(o) }); }
}
Object.assign(WS, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
const tick = () => new Promise(r => setImmediate(r));
const setT = (f, ms) => { timers.push({ id: ++tid, at: now + (+ms || 0), f }); return tid; };
const clearT = id => { timers = timers.filter(t => t.id !== id); };
async function pass(ms) { now += ms; for (;;) { const t = timers.filter(t => t.at <= now).sort((a, b) => a.at - b.at)[0]; if (!t) break; clearT(t.id); t.f(); await tick(); } }
const quiet = new Proxy({}, { get: () => () => {} });
const m = { exports: {} };
new Function('require', 'exports', 'module', 'WebSocket', 'setTimeout', 'clearTimeout', 'console', js)(n => n === 'zod' ? zod : null, m.exports, m, WS, setT, clearT, quiet);
const { get, count } = m.exports.Main;
const live = () => sockets.filter(s => s.readyState < 2);
let bad = 0;
const eq = (a, b, what) => { if (JSON.stringify(a) !== JSON.stringify(b)) { bad++; console.log('FAIL', what, 'is', JSON.stringify(a), 'should be', JSON.stringify(b)); } };
(async () => {
'''
T = '\n})().then(() => process.exit(bad ? 1 : 0), e => { console.log(e); process.exit(1); });\n'
F = 'src/rpc/clients/static/websocket_client.ts'
SEEDS = [
 dict(id='c14-answers-by-latest-id', property='C14', needs='two requests under way at the same time',
  breaks='a response settles whichever requests are pending if it carries the latest id, and none otherwise',
  edits=[(F, '''    req_id += 1;
    let id = req_id;
    let request = { req_id, namespace''', '''    req_id += 1;
    const id = () => req_id;
    let request = { req_id, namespace'''), (F, 'if (res_id == id && error !== undefined) {\n        reject', 'if (res_id == id() && error !== undefined) {\n        reject'), (F, '} else if (res_id == id) {', '} else if (res_id == id()) {')],
  main=MAIN, check=H+'''
  const r = []; get(1).then(v => r.push(['first', v])); get(2).then(v => r.push(['second', v])); await tick();
  await sockets[0].open();
  for (const e of sockets[0].sent) await sockets[0].msg({ method: { id: e.id, data: e.args[0] * 10 } });
  await tick(); eq(r, [['first', 10], ['second', 20]], 'the settled requests');'''+T),
 dict(id='c14-zero-answer', property='C14', needs='a method that returns null',
  breaks='a response whose data is null never resolves the request',
  edits=[(F, '''      if ("method" in res) {
''', '''      if (res.method?.data != null) {
''')],
  main=MAIN.replace('-> u8 { n }', '-> Option<u8> { if n > 1 { Some(n) } else { None } }'), check=H+'''
  const r = []; get(2).then(v => r.push(v)); get(1).then(v => r.push(v)); await tick();
  await sockets[0].open();
  const [a, b] = sockets[0].sent;
  await sockets[0].msg({ method: { id: a.id, data: 2 } }); await sockets[0].msg({ method: { id: b.id, data: null } });
  await tick(); eq(r, [2, null], 'the values');'''+T),
 dict(id='c15-late-subscriber-sees-old-item', property='C15', needs='a subscriber that joins after an item of its stream was the last message',
  breaks='the subscriber is called with an item from before it subscribed',
  edits=[(F, '      subscriptions.add(subscription);', '      subscriptions.add(subscription), initialValue !== undefined && subscription(initialValue as any);')],
  main=MAIN, check=H+'''
  const s = count(1), a = [], b = []; s.subscribe(v => a.push(v)); await tick(); await sockets[0].open();
  const id = sockets[0].sent[0].id;
  await sockets[0].msg({ stream: { id, data: 1 } }); s.subscribe(v => b.push(v)); await sockets[0].msg({ stream: { id, data: 2 } });
  eq(a, [1, 2], 'the first subscriber'); eq(b, [2], 'the second subscriber');'''+T),
 dict(id='c15-called-after-unsubscribe', property='C15', needs='a subscriber that unsubscribes another one from within its callback',
  breaks='the other subscriber is called once more after it unsubscribed',
  edits=[(F, '''        initialValue = [res.stream.id, res.stream.data];
        subscriptions.forEach((subscription) =>
''', '''        initialValue = [res.stream.id, res.stream.data];
        Array.from(subscriptions).forEach((subscription) =>
''')],
  main=MAIN, check=H+'''
  const s = count(1), b = []; let stop = () => {}, gone = false;
  s.subscribe(() => { stop(); gone = true; }); stop = s.subscribe(v => { if (gone) b.push(v); }); await tick(); await sockets[0].open();
  await sockets[0].msg({ stream: { id: sockets[0].sent[0].id, data: 1 } });
  eq(b, [], 'calls after unsubscribing');'''+T),
 dict(id='c16-no-delay-after-four', property='C16', needs='six failed attempts in a row',
  breaks='the retry after the fifth failure has no delay at all',
  edits=[(F, 'n >= reopenTimeouts.length - 1 ? reopenTimeouts.length - 1 : n', 'n > reopenTimeouts.length ? reopenTimeouts.length - 1 : n')],
  main=MAIN, check=H+'''
  get(1).catch(() => {}); await tick(); const d = [];
  for (let i = 0; i < 8; i++) { const s = live()[0]; if (!s) break; await s.refuse(); const t = timers[0]; d.push(t ? t.at - now : null); if (t) await pass(t.at - now); }
  eq(d, [100, 200, 1000, 3000, 3000, 3000, 3000, 3000], 'the delays');'''+T),
 dict(id='c16-retries-not-reset', property='C16', needs='a connection that is lost again before any message arrived on it',
  breaks='the delays go on growing instead of restarting from the shortest after a success',
  edits=[(F, '''      reopenCount = 0;
''', ''), (F, 'const res = JSON.parse(event.data);', 'const res = (reopenCount = 0, JSON.parse(event.data));')],
  main=MAIN, check=H+'''
  count(1).subscribe(() => {}); await tick(); const d = [];
  for (let i = 0; i < 3; i++) { const s = live()[0]; await s.open(); await s.lose(); const t = timers[0]; d.push(t ? t.at - now : null); if (t) await pass(t.at - now); }
  eq(d, [100, 100, 100], 'the delays');'''+T),
 dict(id='c16-error-keeps-connection', property='C16', needs='a request that is answered with an error and nothing else under way',
  breaks='the connection is never closed, and is opened again whenever it is lost, although nothing needs it',
  edits=[(F, '''    .then((value: T) => {
      return value;
    })
    .finally(() => unsubscribe && unsubscribe());
''', '''    .then((value: T) => {
      unsubscribe && unsubscribe();
      return value;
    });
''')],
  main=MAIN, check=H+'''
  get(1).catch(() => {}); await tick(); await sockets[0].open();
  await sockets[0].msg({ error: { id: sockets[0].sent[0].id, data: { JsonError: 'x' } } }); await tick();
  eq(live().length, 0, 'the number of connections');'''+T),
 dict(id='c16-timer-survives', property='C16', needs='a request while a retry is waiting, which is answered, and everything ends, before the delay is over',
  breaks='the timer of the retry is not cancelled and opens a connection nobody needs',
  edits=[(F, '''    if (reopenTimeoutHandler) {
      clearTimeout(reopenTimeoutHandler);
      reopenTimeoutHandler = undefined;
    }

    // we are''', '''    reopenTimeoutHandler = undefined;

    // we are''')],
  main=MAIN, check=H+'''
  const stop = count(1).subscribe(() => {}); await tick(); await sockets[0].open(); await sockets[0].lose();
  get(1); await tick(); await pass(50); const s = live()[0]; await s.open();
  await s.msg({ method: { id: s.sent[0].id, data: 1 } }); stop(); await tick(); eq(live().length, 0, 'connections after everything ended');
  await pass(10000); eq(live().length, 0, 'connections later'); eq(sockets.length, 2, 'connections opened');'''+T),
]
