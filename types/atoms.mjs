import { rustTy } from './model.mjs';
const BASIC = [undefined, null, true, 0, 1, -1, 256, 1.5, '', 's', [], {}];
const NAMES = [undefined, null, 0, 's', {}];

const p = (b) => 2 ** b;
export const NUMBERS = [0, -0, 1, -1, 0.5, -1.5, 5e-324, 1e300, -1e300, 1e20, 1e21, 1e22, -1e21, NaN, Infinity, -Infinity, 3.4028234663852886e38, 3.5e38, 340282366920938463463374607431768211455, 2 ** 53, 2 ** 53 + 2, -(2 ** 53)];
for (const b of [7, 8, 15, 16, 31, 32]) for (const s of [1, -1]) for (const o of [-1, 0, 1]) NUMBERS.push(s * p(b) + o);
for (const b of [63, 64, 127]) for (const s of [1, -1]) NUMBERS.push(s * p(b), s * p(b) * (1 - 2 ** -53), s * p(b) * (1 + 2 ** -52));
export const STRINGS = ['', 'a', 'ab', ' ', 'é', 'e\u0301', '😀', '😀a', '\ud83d', '\ude00', '\u0000', '\n', '\u2028', '"', '日本'];
export const IPS = ['1.2.3.4', '0.0.0.0', '255.255.255.255', '256.1.1.1', '1.2.3', '1.2.3.4.5', '01.2.3.4', '1.2.3.04', ' 1.2.3.4', '1.2.3.4 ', '1.2.3.4/24', '0x1.2.3.4', '::', '::1', '1::', '1::2', '::ffff:1.2.3.4', '::1.2.3.4', '::FFFF:1.2.3.4', '64:ff9b::1.2.3.4', '2001:db8::1', '2001:DB8::1', '2001:db8:0:0:1:0:0:1', '1:2:3:4:5:6:7:8', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '1::2::3', '12345::', 'fe80::1%eth0', 'fe80::1', '[::1]', '1:2:3:4:5:6:1.2.3.4', '1:2:3:4:5:6:102:304', '1:2:3:4:5:6:7:1.2.3.4', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '1:2:3:4::5:6:7:8', '00001::', '::/0', 'g::', '1.2.3.4:80', '::ffff:0:1.2.3.4', '::256.1.1.1'];
const uniq = (a) => [...new Map(a.map((x) => [Object.is(x, -0) ? '-0' : typeof x + String(x), x])).values()];
const FULL = uniq([undefined, null, true, false, ...NUMBERS, ...STRINGS, [], {}, [1], new Set([1]), new Map([['a', 1]])]);
const FULLIP = uniq([...BASIC, ...STRINGS.slice(0, 4), ...IPS]);
const MID = [undefined, null, true, 0, 1, -1, 255, 256, 1.5, '', 's', 'ab', [], {}, 'A'];

export function depth(t) { return t.t || t.ts || t.e ? 1 + Math.max(0, ...[t.t, t.e, t.kt, ...(t.ts ?? [])].filter(Boolean).map(depth)) : 0; }
export function atomsFor(corpus, it) {
  if (corpus === 'derive') return BASIC;
  if (corpus === 'names') return NAMES;
  if (!it.t) return MID;
  const r = rustTy(it.t);
  const lone = (x) => typeof x === 'string' && !x.isWellFormed();
  if (depth(it.t) > 1 || it.t.k === 'ref') return MID;
  return /Ipv|IpAddr/.test(r) ? FULLIP : depth(it.t) ? FULL.filter((x) => !lone(x)) : FULL;
}
// constraints TypeScript cannot express: numeric ranges, string formats and lengths, array lengths.
// A candidate is left out of the TypeScript comparison only if it uses them.
const has = (v, f) => f(v) || (Array.isArray(v) ? v.some((x) => has(x, f)) : v instanceof Map ? [...v].some(([k, x]) => has(k, f) || has(x, f)) : v instanceof Set ? [...v].some((x) => has(x, f)) : v && typeof v === 'object' ? Object.values(v).some((x) => has(x, f)) : false);
export function restricted(corpus, it, c) {
  const txt = it.t ? rustTy(it.t) : '';
  return has(c.v, (x) => (typeof x === 'number' && x !== 0 && x !== 1 && x !== 7) || (typeof x === 'string' && /char|Ip/.test(txt) && !c.zod)) || (/; \d\]/.test(txt) && !c.zod && has(c.v, Array.isArray));
}
