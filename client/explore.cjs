// Stateless exploration of the generated client: the real module, a scripted WebSocket, virtual timers.
// usage: node client.cjs MODULE.js PROP TIER SHARD SHARDS [CASE]
'use strict';
const fs = require('fs');
const vm = require('vm');
const { Worker, isMainThread, workerData, parentPort } = require('worker_threads');
const [, , MODULE, PROP, TIER, SHARD, SHARDS, ONLY] = process.argv;
const shard = +SHARD, shards = +SHARDS, thorough = TIER === 'thorough';
process.on('unhandledRejection', () => {}); // what a page would see in its console
const fn = vm.runInThisContext('(function (require, exports, module, WebSocket, setTimeout, clearTimeout, setInterval, clearInterval, performance, console, globalThis, window, self, queueMicrotask, Date) {' + fs.readFileSync(MODULE, 'utf8') + '\n})', { filename: 'client.js' });
const zod = require('zod/v3');
const quiet = new Proxy({}, { get: () => () => {} });
const DELAYS = [100, 200, 1000, 3000];
const tick = () => new Promise(r => setImmediate(r));

class World {
  constructor() {
    this.now = 0; this.timers = []; this.next = 1; this.sockets = []; this.opened = 0;
    const w = this;
    this.WebSocket = class WebSocket {
      constructor(url) {
        this.url = url; this.readyState = 0; this.sent = []; this.listeners = {}; this.n = w.sockets.length; this.closedByClient = false; this.dead = false;
        this.bufferedAmount = 0; this.protocol = ''; this.binaryType = 'blob';
        w.sockets.push(this);
      }
      send(text) {
        if (this.readyState === 0) throw new Error('InvalidStateError');
        if (this.readyState === 1) { this.sent.push(String(text)); w.onsend(this, String(text)); }
      }
      close() {
        if (this.readyState >= 2) return;
        this.was = this.readyState;
        this.readyState = 2;
        this.closedByClient = true;
        w.onclientclose(this);
      }
      addEventListener(t, f, o) { const l = (this.listeners[t] ||= []); if (f && !l.includes(f)) { l.push(f); if (o && o.once) (this.once ||= new Set()).add(f); } }
      removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
      fire(t, e) {
        const ev = Object.assign({ type: t, target: this }, e);
        for (const l of [this['on' + t], ...(this.listeners[t] || [])]) if (l) { if (this.once && this.once.has(l)) this.removeEventListener(t, l); const f = typeof l === 'function' ? l : l.handleEvent; try { f.call(typeof l === 'function' ? this : l, ev); } catch (e) { if (e instanceof TypeError || e instanceof ReferenceError) w.thrown = e; } }
      }
    };
    Object.assign(this.WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
    Object.assign(this.WebSocket.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
    this.setTimeout = (f, ms, ...a) => { const t = { id: this.next++, at: this.now + (+ms || 0), f: () => f(...a) }; this.timers.push(t); return t.id; };
    this.clearTimeout = id => { this.timers = this.timers.filter(t => t.id !== id); };
  }
  load() {
    const module = { exports: {} };
    const w = this;
    const g = { WebSocket: this.WebSocket, setTimeout: this.setTimeout, clearTimeout: this.clearTimeout, console: quiet };
    fn.call(undefined, n => (n === 'zod' ? zod : (() => { throw new Error('require ' + n); })()), module.exports, module, this.WebSocket, this.setTimeout, this.clearTimeout, (f, ms) => { throw new Error('setInterval'); }, () => {}, { now: () => w.now }, quiet, g, g, g, queueMicrotask, Object.assign(function () { return new Date(w.now); }, { now: () => w.now }));
    return module.exports;
  }
}

// One execution: the actions taken so far, what the client did, and the rules.
class Exec {
  constructor(fam) {
    this.fam = fam; this.bad = []; this.log = [];
    const w = this.w = new World();
    w.onsend = (s, t) => this.onsend(s, t);
    w.onclientclose = s => this.onclientclose(s);
    this.calls = [];      // {kind: 'req'|'stream', wire, sent, id, socket, state, subs: []}
    this.unsent = [];
    this.count = {};
    // the connection as C16 wants it
    this.m = { conn: null, state: 'none', timer: null, retries: 0, abandoned: false, sockets: 0 };
    this.mod = w.load();
    this.inCall = null;
  }
  fail(prop, rule, what) { this.bad.push({ prop, rule, what }); }
  propOf(c) { return c.kind === 'req' ? 'C14' : 'C15'; }

  // ------------------------------------------------------------------ what the client does
  onsend(s, text) {
    let v; try { v = JSON.parse(text); } catch { v = null; }
    const e = v && v.exec;
    if (!e || Object.keys(v).length !== 1) return this.fail('C14', 'wire', `puts ${text} on the wire`);
    const c = this.unsent.find(c => c.ns === e.namespace && c.method === e.method && JSON.stringify(c.args) === JSON.stringify(e.args));
    if (!c) {
      const again = this.calls.find(c => c.sent && c.ns === e.namespace && c.method === e.method && JSON.stringify(c.args) === JSON.stringify(e.args));
      return this.fail(again ? this.propOf(again) : 'C14', 'wire', again ? `a request is sent again: ${text}` : `puts ${text} on the wire, nobody asked for it`);
    }
    if (this.unsent[0] !== c) this.fail('C14', 'wire', `requests are sent out of order: ${text}`);
    if (!Number.isSafeInteger(e.id) || e.id < 0 || this.calls.some(d => d.id === e.id)) this.fail(this.propOf(c), 'wire', `the id of ${text} is not fresh`);
    if (Object.keys(e).sort().join() !== 'args,id,method,namespace') this.fail(this.propOf(c), 'wire', `not the form the server understands: ${text}`);
    this.unsent.splice(this.unsent.indexOf(c), 1);
    c.sent = true; c.id = e.id; c.socket = s;
  }
  onclientclose(s) {
    if (s.was !== 1) return;
    for (const c of this.calls) {
      if (c.socket !== s) continue;
      if (c.kind === 'req' && c.expect === undefined) this.fail('C14', 'lost', `closes the connection while ${c.name} waits for its answer`);
      if (c.kind === 'stream' && c.subs.some(x => x.on)) this.fail('C15', 'lost', `closes the connection while ${c.name} has subscribers`);
    }
  }
  // ------------------------------------------------------------------ the connection as it should be
  active() { return this.calls.some(c => c.kind === 'req' ? c.state === 'pending' : c.subs.some(s => s.on)); }
  mOpenNew() { this.m.state = 'connecting'; this.m.conn = this.m.sockets++; this.m.timer = null; }
  mCall() {
    const m = this.m;
    m.abandoned = false;
    if (m.state === 'none') this.mOpenNew();
    else if (m.state === 'closing') {
      // waiting for the close event is fine, so is not waiting
      if (this.w.sockets.length > m.sockets) this.mOpenNew();
    }
  }
  mIdle() { // the last subscriber or caller is gone
    const m = this.m;
    if (this.active()) return;
    if (m.unsent > 0) m.abandoned = true;
    else { m.state = 'none'; m.conn = null; m.timer = null; }
  }
  mLost() {
    const m = this.m;
    m.conn = null; m.state = 'none';
    if (this.active() || m.unsent > 0) m.timer = this.w.now + DELAYS[Math.min(m.retries++, 3)];
  }
  // ------------------------------------------------------------------ actions
  enabled() {
    const a = [], L = this.fam.limits, n = this.count, w = this.w;
    const may = (k, x = k) => (n[x] || 0) < (L[k] || 0);
    if (may('req')) a.push(['req']);
    if (may('stream')) a.push(['stream']);
    this.calls.forEach((c, i) => {
      if (c.kind === 'stream') {
        if (may('sub')) for (const b of this.fam.subs) a.push(['sub', i, b]);
        c.subs.forEach((s, j) => { if (s.on || (L.twice && !s.twice)) a.push(['unsub', i, j]); });
      }
    });
    for (const s of w.sockets) {
      if (s.dead) continue;
      if (s.closedByClient) { a.push(['gone', s.n]); continue; }
      if (s.readyState === 0) { a.push(['open', s.n]); if (may('fail')) a.push(['fail', s.n]); if (may('refuse')) a.push(['refuse', s.n]); }
      if (s.readyState === 1) { if (may('lose')) a.push(['lose', s.n]); if (may('closing')) a.push(['closing', s.n]); if (may('error')) a.push(['error', s.n]); }
      if (s.readyState === 2) a.push(['lose', s.n]);
      if (s.readyState === 1) {
        this.calls.forEach((c, i) => {
          if (!c.sent || c.socket !== s) return;
          if (c.kind === 'req') {
            if ((c.answers || 0) < (L.answers || 1)) { for (const v of this.fam.values || [undefined]) a.push(v === undefined ? ['answer', i] : ['answer', i, v]); if (L.errors) a.push(['refused', i]); }
          } else {
            if (may('item')) for (const v of this.fam.values || [undefined]) a.push(v === undefined ? ['item', i] : ['item', i, v]);
            if (may('itemerror')) a.push(['itemerror', i]);
          }
        });
        if (may('noise')) for (const k of this.fam.noise) a.push(['noise', s.n, k]);
      }
    }
    if (w.timers.length) a.push(['timer']);
    return a;
  }
  async act(a) {
    const [k, x, y] = a, w = this.w, m = this.m;
    this.log.push(a.join(' '));
    this.count[k] = (this.count[k] || 0) + 1;
    const s = w.sockets[x];
    m.unsent = this.unsent.length;
    switch (k) {
      case 'req': this.request(); this.later = () => this.mCall(); break;
      case 'stream': this.stream(); this.later = () => this.mCall(); break;
      case 'sub': this.subscribe(this.calls[x], y); m.abandoned = false; break;
      case 'unsub': this.unsubscribe(this.calls[x], this.calls[x].subs[y]); break;
      case 'open':
        s.readyState = 1;
        if (m.conn === s.n) { m.state = 'open'; m.retries = 0; if (m.abandoned) { m.state = 'none'; m.conn = null; m.abandoned = false; } }
        s.fire('open'); break;
      case 'fail': // refused: error, then close
        s.readyState = 3; s.dead = true;
        if (m.conn === s.n) this.mLost();
        s.fire('error'); await tick();
        s.fire('close', { code: 1006 }); break;
      case 'refuse': // close without an error
      case 'lose':
        s.readyState = 3; s.dead = true;
        if (m.conn === s.n) this.mLost();
        s.fire('close', { code: 1006 }); break;
      case 'error': // an established connection breaks
        s.readyState = 3; s.dead = true;
        if (m.conn === s.n) this.mLost();
        s.fire('error'); await tick();
        s.fire('close', { code: 1006 }); break;
      case 'closing': s.readyState = 2; if (m.conn === s.n) m.state = 'closing'; break;
      case 'gone': { // the end of a connection the client has closed
        s.readyState = 3; s.dead = true;
        if (s.was === 0) { s.fire('error'); await tick(); }
        s.fire('close', { code: s.was === 0 ? 1006 : 1005 }); break;
      }
      case 'timer': {
        const t = w.timers.reduce((p, q) => (q.at < p.at ? q : p));
        w.timers = w.timers.filter(q => q !== t);
        w.now = Math.max(w.now, t.at);
        if (m.timer !== null) { m.timer = null; this.mOpenNew(); }
        t.f(); break;
      }
      case 'answer': case 'refused': {
        const c = this.calls[x];
        c.answers = (c.answers || 0) + 1;
        const data = y === undefined ? [c.name, c.answers] : VALUES[y];
        if (c.expect === undefined) c.expect = k === 'answer' ? { ok: data } : { err: true };
        this.message(c.socket, k === 'answer' ? { method: { id: c.id, data } } : { error: { id: c.id, data: { JsonError: c.name } } });
        this.later = () => this.mIdle(); break;
      }
      case 'item': {
        const c = this.calls[x];
        const d = y === undefined ? [c.name, c.n = (c.n || 0) + 1] : VALUES[y];
        for (const q of c.subs) if (q.on) q.want.push(d);
        c.current = JSON.stringify(d);
        this.message(c.socket, { stream: { id: c.id, data: d } });
        c.current = null; break;
      }
      case 'itemerror': { const c = this.calls[x]; this.message(c.socket, { error: { id: c.id, data: { JsonError: 'x' } } }); break; }
      case 'noise': this.message(s, this.noise(y)); break;
    }
    await tick();
    if (this.later) { const f = this.later; this.later = null; f(); }
    await this.check();
  }
  noise(k) {
    switch (k) {
      case 'method': return { method: { id: 900, data: 'noise' } };
      case 'stream': return { stream: { id: 901, data: 'noise' } };
      case 'error': return { error: { id: 902, data: { JsonError: 'noise' } } };
      case 'null': return { error: { id: null, data: { JsonError: 'noise' } } };
      case 'other': return { what: { id: 1, data: 'noise' } };
    }
  }
  message(s, v) { s.fire('message', { data: JSON.stringify(v) }); }
  call(kind, ns, method, args) {
    const c = { kind, ns, method, args, name: kind[0] + this.calls.length, sent: false, id: undefined, subs: [] };
    this.calls.push(c); this.unsent.push(c);
    return c;
  }
  request() {
    const i = this.calls.length;
    const c = this.call('req', 'other_ns', 'get', [i]);
    c.state = 'pending';
    try {
      const p = this.mod.other_ns.get(i);
      p.then(v => { if (c.state !== 'pending') this.fail('C14', 'settle', `${c.name} settles twice`); c.state = 'ok'; c.value = v; }, e => { if (c.state !== 'pending') this.fail('C14', 'settle', `${c.name} settles twice`); c.state = 'err'; c.value = e; });
    } catch (e) { this.fail('C14', 'settle', `${c.name} throws ${e}`); }
  }
  stream() {
    const i = this.calls.length;
    const c = this.call('stream', 'Main', 'count', [i, 2]);
    try { c.store = this.mod.Main.count(i, 2); } catch (e) { this.fail('C15', 'call', `${c.name} throws ${e}`); }
  }
  subscribe(c, behaviour) {
    const s = { on: true, want: [], got: [], behaviour };
    c.subs.push(s);
    const off = c.store.subscribe(v => {
      const d = JSON.stringify(v);
      // subscribed from within the delivery of this very item: either way is fine
      if (s.born && d === s.born) return;
      if (!s.on) return this.fail('C15', 'late', `a subscriber of ${c.name} that has left gets ${d}`);
      s.got.push(v);
      if (s.got.length === 1) {
        if (behaviour === 'leave') this.unsubscribe(c, s);
        if (behaviour === 'push') for (const o of c.subs) if (o !== s && o.on) { if (o.got.length < o.want.length) o.want.pop(); this.unsubscribe(c, o); }
        if (behaviour === 'join' && c.subs.length < 4) { this.subscribe(c, 'plain'); c.subs[c.subs.length - 1].born = d; }
        if (behaviour === 'call') { this.m.unsent = this.unsent.length; this.request(); this.mCall(); }
      }
    });
    s.off = off;
    if (typeof off !== 'function') this.fail('C15', 'call', 'subscribe returns no function to unsubscribe');
  }
  unsubscribe(c, s) {
    const was = s.on;
    if (!was) s.twice = true;
    s.on = false;
    s.off();
    this.m.unsent = this.unsent.length;
    if (was) this.mIdle();
  }
  // ------------------------------------------------------------------ the rules
  async check() {
    const w = this.w, m = this.m;
    if (w.thrown) this.fail(PROP, 'throws', `a handler throws ${w.thrown}`);
    // C14: settlement
    for (const c of this.calls) {
      if (c.kind !== 'req') {
        for (const s of c.subs) if (JSON.stringify(s.got) !== JSON.stringify(s.want)) this.fail('C15', 'items', `a subscriber of ${c.name} gets ${JSON.stringify(s.got)} instead of ${JSON.stringify(s.want)}`);
        continue;
      }
      const want = c.expect === undefined ? 'pending' : c.expect.err ? 'err' : 'ok';
      if (c.state !== want) this.fail('C14', 'settle', `${c.name} is ${c.state}, it should be ${want}`);
      else if (want === 'ok' && JSON.stringify(c.value) !== JSON.stringify(c.expect.ok)) this.fail('C14', 'settle', `${c.name} resolves with ${JSON.stringify(c.value)} instead of ${JSON.stringify(c.expect.ok)}`);
    }
    // C14, C15: sent as soon as a connection is open, on its way otherwise
    const live = w.sockets.filter(s => s.readyState < 2);
    if (this.unsent.length) {
      const c = this.unsent[0];
      if (live.some(s => s.readyState === 1)) this.fail(this.propOf(c), 'wire', `${c.name} is not sent although a connection is open`);
      else if (!live.length && !w.timers.length && !w.sockets.some(s => s.readyState === 2 && !s.closedByClient)) this.fail(this.propOf(c), 'wire', `${c.name} will never be sent`);
    }
    // C16
    if (live.length > 1) this.fail('C16', 'one', `${live.length} connections`);
    const has = { sockets: w.sockets.length, live: live.map(s => `${s.n}:${s.readyState}`).join(), timers: w.timers.map(t => t.at).join() };
    const want = { sockets: m.sockets, live: m.state === 'connecting' ? `${m.conn}:0` : m.state === 'open' ? `${m.conn}:1` : '', timers: m.timer === null ? '' : String(m.timer) };
    if (JSON.stringify(has) !== JSON.stringify(want)) this.fail('C16', 'connection', `connections ${has.live || 'none'} of ${has.sockets} so far, timer at ${has.timers || 'never'}; should be ${want.live || 'none'} of ${want.sockets}, timer at ${want.timers || 'never'}`);
  }
}

const VALUES = { null: null, zero: 0, false: false, empty: '', array: [], object: {}, text: 'x', number: -1.5, nested: { method: { id: 1, data: 1 } }, failed: { error: { id: 1 } }, Err: { Err: 'x' }, list: [null, [0]] };
const FAMILIES = {
  values: { limits: { req: 2, stream: 1, sub: 1, answers: 1, errors: 1, item: 2 }, subs: ['plain'], noise: [], values: Object.keys(VALUES), depth: [6, 7] },
  general: { limits: { req: 2, stream: 1, sub: 2, fail: 2, lose: 1, refuse: 0, closing: 1, answers: 1, errors: 1, item: 2 }, subs: ['plain'], noise: [], depth: [7, 9] },
  requests: { limits: { req: 3, fail: 2, lose: 1, closing: 1, answers: 2, errors: 1, noise: 1 }, subs: [], noise: ['method', 'null'], depth: [8, 10] },
  noise: { limits: { req: 2, stream: 1, sub: 1, noise: 3, answers: 1, errors: 1, item: 1, itemerror: 1 }, subs: ['plain'], noise: ['method', 'stream', 'error', 'null', 'other'], depth: [7, 8] },
  subscribers: { limits: { stream: 2, sub: 3, item: 3, itemerror: 1, lose: 1, twice: 1 }, subs: ['plain'], noise: [], depth: [8, 10] },
  reentrant: { limits: { stream: 1, sub: 3, item: 3, req: 1, answers: 1 }, subs: ['plain', 'leave', 'push', 'join', 'call'], noise: [], depth: [7, 9] },
  connection: { limits: { req: 1, stream: 1, sub: 1, fail: 9, lose: 9, refuse: 9, closing: 2, error: 2, answers: 1, item: 1 }, subs: ['plain'], noise: [], depth: [9, 11] },
  retries: { limits: { req: 1, fail: 20, lose: 1, answers: 1 }, subs: [], noise: [], depth: [15, 19] },
  // a subscriber is there before the connection is, and one request after the other
  sequence: { limits: { req: 4, answers: 1, lose: 1, errors: 1, fail: 1 }, subs: [], noise: [], depth: [10, 13] },
  // from a connection that is open, with a stream and two subscribers
  running: { prefix: [['stream'], ['sub', 0, 'plain'], ['open', 0], ['stream'], ['sub', 1, 'plain']], limits: { stream: 2, sub: 4, item: 4, req: 1, lose: 2, fail: 2, answers: 1, errors: 1 }, subs: ['plain'], noise: [], depth: [11, 13] },
};
const USES = {
  C14: ['values', 'general', 'requests', 'noise', 'sequence', 'connection', 'retries', 'reentrant'],
  C15: ['values', 'general', 'noise', 'subscribers', 'reentrant', 'running'],
  C16: ['general', 'requests', 'subscribers', 'connection', 'retries', 'sequence', 'running'],
};

async function execute(fam, prefix, depth, mine) {
  mark(fam, []);
  let e;
  try { e = new Exec(fam); } catch (x) { return { e: { bad: [{ prop: PROP, rule: 'load', what: `loading the module throws ${x}` }], log: [] }, picks: [], sizes: [] }; }
  const picks = [], sizes = [];
  const act = async a => {
    mark(fam, e.log, a);
    try { await e.act(a); } catch (x) { e.fail(PROP, 'throws', `${a.join(' ')} throws ${x && x.stack}`.slice(0, 600)); }
  };
  for (const a of fam.prefix || []) { await act(a); if (e.bad.length) break; }
  let n = (fam.prefix || []).length;
  while (n < depth) {
    if (e.bad.some(b => b.prop === PROP)) break;
    const en = e.enabled();
    if (!en.length) break;
    const i = picks.length < prefix.length ? prefix[picks.length] : 0;
    if (i >= en.length) throw new Error('diverged');
    picks.push(i); sizes.push(en.length);
    if (picks.length === 3 && !mine(picks)) return { e, picks, sizes, skip: true };
    await act(en[i]);
    n++;
  }
  if (picks.length < 3 && !mine([...picks, 0, 0, 0].slice(0, 3))) return { e, picks, sizes, skip: true };
  return { e, picks, sizes };
}

// where this execution is, for the main thread: it reports a client that does not come back
const shared = isMainThread ? new SharedArrayBuffer(4096) : workerData;
const beat = new Int32Array(shared, 0, 2), where = new Uint8Array(shared, 8), enc = new TextEncoder();
function mark(fam, log, a) {
  if (isMainThread) return;
  Atomics.store(beat, 1, enc.encodeInto([Object.keys(FAMILIES).find(k => FAMILIES[k] === fam), [...log, ...(a ? [a.join(' ')] : [])].join(', ')].join('|'), where).written);
  Atomics.add(beat, 0, 1);
}
if (isMainThread && ONLY === undefined) {
  const w = new Worker(__filename, { argv: process.argv.slice(2), workerData: shared, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
  let last = -1, still = 0, out = null;
  w.on('message', o => { out = o; });
  const stuck = () => {
    const at = new TextDecoder().decode(where.slice(0, Atomics.load(beat, 1)));
    process.stdout.write(JSON.stringify({ families: [], violations: [{ case: `${at}|hangs`, detail: 'the client does not return from the last of these events', rule: 'hangs' }], samples: [] }), () => process.exit(0));
  };
  w.on('error', e => { if (e.code === 'ERR_WORKER_OUT_OF_MEMORY') return stuck(); console.error(e); process.exit(3); });
  w.on('exit', c => { if (out === null) return setTimeout(() => process.exit(3), 5000); process.stdout.write(out, () => process.exit(c)); });
  setInterval(() => {
    const n = Atomics.load(beat, 0);
    still = n === last ? still + 1 : 0;
    last = n;
    if (still < 30 || n === 0) return;
    stuck();
  }, 1000);
} else (async () => {
  const fams = [], violations = [], samples = [];
  for (const name of USES[PROP]) {
    const fam = FAMILIES[name];
    const depth = fam.depth[thorough ? 1 : 0];
    const st = { family: name, depth, executions: 0, steps: 0, max_enabled: 0, histories: 0 };
    const mine = p => (p[0] * 31 + p[1] * 7 + p[2] * 3 + ((p[1] * 5 + p[2]) >> 2)) % shards === shard;
    const t0 = Date.now();
    const seen = new Set();
    if (ONLY !== undefined) {
      const [n, acts] = ONLY.split('|');
      if (n !== name) continue;
      const e = new Exec(fam);
      for (const a of acts.split(', ').filter(Boolean)) { const [k, x, y] = a.split(' '); await e.act([k, x === undefined ? x : +x, y !== undefined && isNaN(+y) ? y : y === undefined ? y : +y]); console.log(a, JSON.stringify(e.bad)); }
      continue;
    }
    let prefix = [];
    for (;;) {
      const r = await execute(fam, prefix, depth, mine);
      if (!r.skip) {
        st.executions++;
        st.steps += r.e.log.length;
        if (samples.length < 1 && r.e.log.length === depth && st.executions > 50) samples.push({ family: name, actions: r.e.log, wire: r.e.w.sockets.map(s => s.sent) });
        const b = r.e.bad.find(b => b.prop === PROP);
        if (b) {
          violations.push({ case: `${name}|${r.e.log.join(', ')}|${b.rule}`, detail: b.what, rule: b.rule });
          if (violations.length > 40) break;
        }
      }
      const { picks, sizes } = r;
      for (const s of sizes) if (s > st.max_enabled) st.max_enabled = s;
      while (picks.length && picks[picks.length - 1] + 1 >= sizes[picks.length - 1]) picks.pop();
      if (!picks.length) break;
      picks[picks.length - 1]++;
      prefix = picks;
    }
    st.seconds = (Date.now() - t0) / 1000;
    fams.push(st);
    if (violations.length > 40) break;
  }
  const out = JSON.stringify({ families: fams, violations, samples });
  if (isMainThread) console.log(out); else parentPort.postMessage(out);
})().catch(e => { console.error(e); process.exit(3); });
