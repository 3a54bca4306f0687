'use strict';
const { T } = require('../lib/types');
const Ut = 'packages/util/src/', C = module.exports = [];
const assert = require('assert');
const raw = () => ({ ...T.tok() });
const same2 = (a, b) => { try { assert.deepStrictEqual(a, b); return true; } catch { return false; } };
const KEYS = ['a', 'b', 'c', 'x y', '', '0', '10', '-1', '\u4e2d', 'constructorName', 'length', '__proto__', 'toJSON', 'size'];
const STR = r => r.pick(['', 'a', "it's", '"q"', '\\', '\n\r\t', '\u2028', '\ud83d\ude00', '${x}', '</script>', '`', '\0', 'abc']);
const NUMS = [0, -0, 1, -1, 1.5, NaN, Infinity, -Infinity, 1e21, 1e-7, 2 ** 53, -123456];
const BYTES = r => Array.from({ length: r.int(6) }, () => r.int(256));
const TYPED = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array'];
// a recipe (plain data) for a value: [kind, ...]
const prim = r => r.pick([() => ['v', r.pick(NUMS)], () => ['v', STR(r)], () => ['v', r.bool()], () => ['v', null], () => ['undef'], () => ['big', r.pick(['0', '-5', '90071992547409931'])]])();
const special = (r, o = {}) => r.pick([
    () => ['date', r.pick([0, 1e12, -1, 1e12 + 1, -8.64e15, 253402300800000])], () => ['re', r.pick(['a', '[/]\\d+', '(?<n>x)|y', '\\u{1f600}', '']), r.pick(['', 'g', 'gi', 'u', 'y']), o.last ? r.int(3) : 0], () => ['box', r.pick([true, false, 0, -0, NaN, 3, 'str', ''])],
    () => ['typed', r.pick(TYPED), BYTES(r)], () => ['typed', r.pick(['BigInt64Array', 'BigUint64Array']), BYTES(r)], () => ['buffer', BYTES(r)],
    () => ['map', Array.from({ length: r.int(4) }, () => [prim(r), prim(r)])], () => ['set', Array.from({ length: r.int(4) }, () => prim(r))],
    () => ['error', r.pick(['Error', 'TypeError', 'RangeError', 'SyntaxError']), STR(r)], () => ['url', 'https://h/' + r.int(9) + '?a=1#b'],
])();
const tree = (r, d, o) => {
    if (d > 3 || r.bool(0.3)) return o.up && r.bool(0.1) ? ['up', r.int(3)] : r.bool(0.6) ? prim(r) : o.special(r);
    const n = r.int(5);
    if (r.bool(0.45)) return ['arr', Array.from({ length: n }, () => (r.bool(0.12) ? null : tree(r, d + 1, o))), r.bool(0.1) ? n + r.int(3) : n, r.bool(0.05) ? 60 : 0];
    const ks = [...new Set(Array.from({ length: n }, () => r.pick(KEYS)))];
    return ['obj', r.bool(0.15), ks.map(k => [k, tree(r, d + 1, o), o.hidden && r.bool(0.1)]), o.symbols && r.bool(0.2) ? [tree(r, d + 1, o)] : []];
};
const MAKE = `(recipe) => {
    const SYM = Symbol.for('verif-key'), flat = new Map();
    const go = (t, up) => {
        switch (t[0]) {
            case 'v': return t[1]; case 'undef': return undefined; case 'big': return BigInt(t[1]); case 'up': return up.length ? up[up.length - 1 - (t[1] % up.length)] : 1;
            case 'date': return new Date(t[1]); case 're': { const x = new RegExp(t[1], t[2]); x.lastIndex = t[3]; return x; } case 'box': return Object(t[1]);
            case 'typed': { const K = globalThis[t[1]]; return K.from(t[2].map(x => (t[1].startsWith('Big') ? BigInt(x) : t[1].startsWith('Float') ? x + 0.5 : x))); }
            case 'buffer': return Buffer.from(t[1]); case 'map': return new Map(t[1].map(([k, v]) => [go(k, up), go(v, up)])); case 'set': return new Set(t[1].map(k => go(k, up)));
            case 'error': return new globalThis[t[1]](t[2]); case 'url': return new URL(t[1]);
            case 'arrbuf': return new Uint8Array(t[1]).buffer; case 'view': return new DataView(new Uint8Array([1, 2, 3, ...t[1]]).buffer, 3);
            case 'arr': { const a = []; a.length = t[2] + t[3]; t[1].forEach((x, i) => { if (x !== null) a[i] = go(x, [...up, a]); }); return a; }
            default: { const o = t[1] ? Object.create(null) : {}; for (const [k, x, hidden] of t[2]) Object.defineProperty(o, k, { value: go(x, [...up, o]), writable: true, configurable: true, enumerable: !hidden }); for (const x of t[3]) o[SYM] = go(x, [...up, o]); return o; }
        }
    };
    return go(recipe, []);
}`;
const make = (0, eval)(MAKE);
// every object reachable through own properties
const parts = v => { const s = new Set(), todo = [v]; while (todo.length) { const x = todo.pop(); if (x === null || typeof x !== 'object' || s.has(x)) continue; s.add(x); if (ArrayBuffer.isView(x)) { todo.push(x.buffer); continue; } for (const k of Reflect.ownKeys(x)) { const d = Object.getOwnPropertyDescriptor(x, k); if ('value' in d) todo.push(d.value); } } return s; };
const shapes = (a, b, seen = new Map()) => { if (a === null || typeof a !== 'object') return true; if (seen.has(a)) return seen.get(a) === b; seen.set(a, b); if (ArrayBuffer.isView(a) || Object.prototype.toString.call(a) === '[object Error]') return true; const ks = Reflect.ownKeys(a); return ks.length === Reflect.ownKeys(b).length && ks.every(k => { const x = Object.getOwnPropertyDescriptor(a, k), y = Object.getOwnPropertyDescriptor(b, k); return y && x.enumerable === y.enumerable && x.writable === y.writable && x.configurable === y.configurable && (k === 'lastIndex' || shapes(x.value, y.value, seen)); }); };
C.push({
    id: 'deepCopy', property: 'O06', uses: { copy: Ut + 'copy.ts' }, runMs: 12000, runMax: 60000, bounded: 'generated values up to five levels deep of the supported kinds (maps and sets hold primitives), with cycles',
    drive: `(recipe) => { const v = (${MAKE})(recipe); return { v, c: copy(v) }; }`,
    params: { recipe: { ...raw(), gen: r => tree(r, 0, { up: true, hidden: true, symbols: true, special: r2 => (r2.bool(0.2) ? r2.pick([['arrbuf', BYTES(r2)], ['view', BYTES(r2)]]) : special(r2, { last: true })) }) } },
    ensures: {
        'equal-to-the-original': ({ result }) => same2(result.c, result.v) && shapes(result.v, result.c),
        'the-original-stays-as-it-was': ({ recipe, result }) => same2(result.v, make(recipe)),
        'nothing-shared': ({ result }) => { const a = parts(result.v), pool = Buffer.from([1]).buffer; for (const x of parts(result.c)) if (a.has(x) && x !== pool && !(x instanceof ArrayBuffer && x.byteLength > 4000)) return false; return true; },
    },
});
C.push({
    id: 'missingAttrs', property: 'O06', uses: { copyAttrs: Ut + 'copyAttrs.ts' }, runMs: 8000, runMax: 60000, bounded: 'generated objects of up to five keys, up to three levels deep',
    drive: `(src, dest, lacked) => { const make = ${MAKE}, s = make(src), d = make(dest), out = copyAttrs(s, d, lacked); return { s, d, out }; }`,
    params: { src: raw(), dest: raw(), lacked: T.bool() },
    gen: r => { const one = () => ['obj', false, [...new Set(Array.from({ length: r.int(5) }, () => r.pick(['a', 'b', 'c', 'x y', '0', '\u4e2d'])))].map(k => [k, tree(r, 2, { special }), false]), []]; return [one(), one(), r.bool()]; },
    ensures: {
        'the-very-destination-with-every-value': ({ src, dest, lacked, result }) => { const s = make(src), d = make(dest); const w = lacked ? { ...s, ...d } : { ...d, ...s }; return result.out === result.d && same2(result.out, w) && same2(result.s, s); },
        'nothing-shared-with-the-source': ({ result }) => { const a = parts(result.s); for (const k of Object.keys(result.s)) { const x = result.out[k]; if (x !== null && typeof x === 'object' && a.has(x)) return false; } return true; },
    },
});
C.push({
    id: 'sourceText', property: 'O07', uses: { stringify: { file: Ut + 'stringify.ts', export: 'stringify' } }, runMs: 12000, runMax: 60000, bounded: 'generated values up to five levels deep of the supported kinds, without cycles',
    drive: `(recipe) => { const v = (${MAKE})(recipe), text = stringify(v); let back, ok = true; try { back = (0, eval)('(' + text + ')'); } catch (e) { ok = false; back = e; } return { v, text, back, ok }; }`,
    params: { recipe: { ...raw(), gen: r => tree(r, 0, { symbols: true, special }) } },
    ensures: {
        'evaluates-to-the-same-value': ({ result }) => typeof result.text === 'string' && result.ok && same2(result.back, result.v),
        'the-value-stays-as-it-was': ({ recipe, result }) => same2(result.v, make(recipe)),
    },
});
C.push({
    id: 'sourceTextCycles', property: 'O07', uses: { stringify: { file: Ut + 'stringify.ts', export: 'stringify' } }, bounded: 'generated values up to five levels deep with cycles',
    drive: `(recipe) => stringify((${MAKE})(recipe))`, params: { recipe: { ...raw(), gen: r => tree(r, 0, { up: true, symbols: true, special }) } }, runMax: 4000,
    ensures: { 'always-a-text-and-cycles-are-marked': ({ recipe, result }) => { const v = make(recipe); let cyc = false; const go = (x, up) => { if (x === null || typeof x !== 'object') return; if (up.includes(x)) { cyc = true; return; } if (Array.isArray(x) || Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null) for (const k of [...Object.keys(x), Symbol.for('verif-key')]) go(x[k], [...up, x]); }; go(v, []); return typeof result === 'string' && result.includes('[Circular]') === cyc; } },
});
