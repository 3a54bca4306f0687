'use strict';
// Parameter descriptors: how a contract's parameter looks symbolically
// (mk: engine, state, name -> [{st, v}]) and how it is generated for replay (gen).
const TT = require('./values');
const { V, sortOf, cmp } = TT;
const { traces, clock, otrace } = require('./speclib');

const SPECIAL_STR = ['', ' ', 'a', 'A', '0', '-1', 'abc', 'aXbXc', 'hello world', '\u00e9', '\u4e2d\u6587', '\u{1F600}', '\u{1F600}a', 'a\u{1F600}b\u{1F468}', '\ud83d', '\ude00\ud83d', '\u0000', '\n', 'a.b', '\u07ff\u0800', '[object Object]', '__proto__', 'constructor', 'length'];
const SPECIAL_NUM = [0, 1, -1, 2, 3, 5, 7, 10, 16, 100, 255, 256, -2, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, Number.MAX_SAFE_INTEGER, Number.MIN_SAFE_INTEGER];
const SPECIAL_FP = [NaN, Infinity, -Infinity, -0, 0.5, -0.5, 1.5, 0.1, 1e21, 2 ** 53, -(2 ** 53), 1e308, 5e-324, Number.MAX_VALUE, Number.EPSILON, 4294967295.5, 2 ** 53 + 2, -1.5];
const MARK = Symbol('mark');

class Rng {
    constructor(seed) { this.s = (seed >>> 0) || 1; }
    next() { let t = (this.s += 0x6d2b79f5); t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61); return ((t ^ (t >>> 14)) >>> 0) / 4294967296; }
    int(n) { return Math.floor(this.next() * n); }
    pick(a) { return a[this.int(a.length)]; }
    bool(p = 0.5) { return this.next() < p; }
}
// a size just around a constant of the sources (or a largish one)
const sizeHint = (r, c, cap) => { const ns = c.consts.num.filter(n => n > 3 && n <= cap); return ns.length && r.bool(0.8) ? r.pick(ns) + r.int(3) : r.int(Math.min(cap, 300)); };
const single = mk => (eng, st, name) => [{ st, v: mk(eng, st, name) }];
let cbN = 0;

const T = {};
T.int = (o = {}) => ({
    kind: 'int', el: 'int', o,
    mk: single((eng, st, name) => { const e = eng.decl(name, 'Int'); st.assume(cmp('<=', TT.intLit(o.min === undefined ? Number.MIN_SAFE_INTEGER : o.min), e), cmp('<=', e, TT.intLit(o.max === undefined ? Number.MAX_SAFE_INTEGER : o.max))); return V.int(e); }),
    gen: (r, c) => { const lo = o.min === undefined ? -Infinity : o.min, hi = o.max === undefined ? Infinity : o.max; for (let i = 0; i < 20; i++) { let x = r.bool(0.45) ? r.int(8) - (lo < 0 ? 2 : 0) : c.lens && c.lens.length && r.bool(0.25) ? Math.floor((r.pick(c.lens) + r.int(5) - 2) / r.pick([1, 1, 2, 3])) : r.bool(0.1) ? r.int(r.pick([40, 400, 3000])) ** r.pick([1, 2]) * (lo < 0 && r.bool(0.3) ? -1 : 1) : r.bool(0.4) && c.consts.num.length ? r.pick(c.consts.num) + r.int(3) - 1 : o.small ? r.int(o.small) : r.pick(SPECIAL_NUM) + (r.bool(0.3) ? r.int(3) - 1 : 0); if (Number.isSafeInteger(x) && x >= lo && x <= hi && (!o.gmax || x <= (r.bool(0.75) ? o.gmax : o.gmax * 40))) return x + 0; } return Math.max(lo, Math.min(hi, 1)); }
});
T.nat = (o = {}) => T.int({ min: 0, ...o });
T.fp = (o = {}) => ({ kind: 'fp', el: 'fp', mk: single((eng, st, name) => { const e = eng.decl(name, TT.FP); st.assume(eng.nonSafe(e)); if (o.nz) st.assume(`(not (fp.isZero ${e}))`); if (o.max !== undefined) st.assume(`(not (fp.gt ${e} ${TT.fpLit(o.max)}))`); return V.fp(e); }), gen: r => { const x = r.bool(0.8) ? r.pick(SPECIAL_FP) : (r.next() - 0.5) * 10 ** r.int(20); return (o.nz && x === 0) || (o.max !== undefined && x > o.max) ? 0.5 : x; } });
// any double at all, safe integers included, in one sort
T.dbl = () => ({ kind: 'fp', el: 'fp', mk: single((eng, st, name) => V.fp(eng.decl(name, TT.FP))), gen: (r, c) => r.bool() ? T.int().gen(r, c) : T.fp().gen(r, c) });
T.num = () => T.or(T.int(), T.fp());
T.bool = () => ({ kind: 'bool', el: 'bool', mk: single((eng, st, name) => V.bool(eng.decl(name, 'Bool'))), gen: r => r.bool() });
T.str = (o = {}) => ({
    kind: 'str', el: 'str', mk: single((eng, st, name) => { const e = eng.decl(name, 'String'); st.assume(`(<= (str.len ${e}) 536870888)`); return V.str(e); }),
    gen: (r, c) => {
        const x = r.next();
        if (x < 0.03 && !o.maxLen) { const n = sizeHint(r, c, 70000); return r.pick(['a', 'ab', '\u00e9', '\u{1F600}']).repeat(n).slice(0, n); }
        if (x < 0.25) return r.pick(SPECIAL_STR);
        if (x < 0.45 && c.consts.str.length) { const s = r.pick(c.consts.str); return r.bool(0.6) ? s : s + r.pick(SPECIAL_STR); }
        if (!o.alphabet && x < 0.55) { // characters at the edges of the encodings, or next to a number in the code
            const edge = [0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10001, 0xfffff, 0x10ffff, 0x20, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61, 0x7a, 0x7b, ...c.consts.num.filter(n => Number.isInteger(n) && n >= 0 && n < 0x110000)]; let t = '';
            for (let i = 1 + r.int(3); i > 0; i--) t += String.fromCodePoint(Math.min(0x10ffff, Math.max(0, r.pick(edge) + r.pick([0, 0, -1, 1]))));
            return t;
        }
        if (x < 0.62) { const a = o.alphabet || 'ab -0'; let t = ''; for (let i = 1 + r.int(3); i > 0; i--) t += a[r.int(a.length)].repeat(1 + r.int(12)); return t; }
        const al = o.alphabet || (r.bool(0.5) ? 'ab' : r.bool() ? 'aA0 _-.xyz' : null); let s = ''; const n = r.int(o.maxLen || 9);
        for (let i = 0; i < n; i++) s += al ? al[r.int(al.length)] : r.pick(['a', 'b', '\u00e9', '\u4e2d', '\u{1F600}', '\ud83d', ' ', '0', '\u07ff', '\uffff', ...(c.consts.str.filter(t => t.length < 6))]);
        return s;
    }
});
// an array of values of one kind, often long, with at most one odd one out at any place
const KINDS = [r => r.pick(['a', '', 'b c']), r => r.int(9), r => r.pick(SPECIAL_FP), r => r.bool(), () => null, () => undefined, r => BigInt(r.int(3)), () => ({}), () => () => 1, () => MARK, () => [1], () => Buffer.from('x')];
const kindArr = (r, c, d) => { const g = r.pick(KINDS), n = r.bool(0.5) ? 1 + r.int(5) : sizeHint(r, c, 600), a = Array.from({ length: n }, () => g(r)); if (n && r.bool(0.6)) a[r.bool(0.5) ? n - 1 : r.int(n)] = anyGen(r, c, d + 1); return a; };
const TAGS = ['Map', 'Set', 'WeakMap', 'WeakSet', 'WeakRef', 'Date', 'RegExp', 'URL', 'Promise', 'Error', 'DOMException', 'Object', 'Array', 'Arguments', 'String', 'Number', 'Boolean', 'BigInt', 'Symbol', 'Generator', 'AsyncGenerator', 'GeneratorFunction', 'AsyncFunction', 'Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float16Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array', 'Int64Array', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Blob', 'File', 'FileList', 'FileReader', 'FormData', 'NodeList', 'Text', 'Window', 'HTMLDocument', 'URLSearchParams', 'process', 'global'];
const ERRS = [Error, TypeError, RangeError, EvalError, SyntaxError, ReferenceError, URIError];
const MISC = [ // less usual objects: forged tags, collections of any size, errors of every class, views, iterators, plain and bare objects
    (r, c) => { const t = r.bool(0.7) ? r.pick(TAGS) : r.pick(c.consts.str.concat(TAGS)), v = r.int(9), o = r.bool(0.8) ? {} : [], s = v < 4 ? t : v === 4 ? t + '\n' : v === 5 ? 'x\n' + t : v === 6 ? t.slice(0, -1) : v === 7 ? t.toLowerCase() : t + '\nx'; o[Symbol.toStringTag] = s; if (r.bool(0.3)) o.size = o.length = r.int(3); return o; },
    (r, c) => { const n = r.bool() ? r.int(3) : r.pick([sizeHint(r, c, 600), 256, 128, 16, 32, 64, 100, 512]); return r.bool() ? new Map(Array.from({ length: n }, (x, i) => [i, i])) : new Set(Array.from({ length: n }, (x, i) => i)); },
    r => { const E = r.pick(ERRS), k = r.int(6), m = r.pick(['', 'm', 'x']); if (k === 0) return new AggregateError([], m); if (k === 1) return new (class Sub extends E {})(m); if (k === 2) { const e = new E(m); e.name = r.pick(['', 'TypeError', 'Error', 'X']); return e; } if (k === 3) { const e = new E(m); if (r.bool()) e.stack = r.pick(['', undefined]); return e; } if (k === 4) return { name: r.pick(['E', '', 1, Object('E')]), message: r.pick(['m', '', undefined]), stack: r.pick(['s', '', 0, Object(''), Object('s')]) }; return new E(m); },
    r => new (r.pick([Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array]))(r.int(3)),
    r => r.pick([() => Buffer.alloc(0), () => Buffer.alloc(r.int(4)), () => new DataView(new ArrayBuffer(2)), () => new SharedArrayBuffer(1), () => new ArrayBuffer(0)])(),
    r => r.pick([() => (function* () {})(), () => (async function* () {})(), () => function* () {}, () => async function* () {}, () => [][Symbol.iterator](), () => ({ [Symbol.iterator]: r.pick([1, () => 1, undefined]) }), () => ({ [Symbol.asyncIterator]: r.pick([1, () => 1, undefined]) }), () => ({ next: r.pick([1, () => 1]) })])(),
    r => r.pick([() => new (class P { constructor() { this.a = 1; } })(), () => Object.create({}), () => Object.create(null), () => Object.assign(Object.create(null), { a: 1 }), () => ({ constructor: Object }), () => ({ constructor: undefined }), () => ({ [MARK]: 1 }), () => Object.defineProperty({}, 'h', { value: 1 }), () => ({ a: 1 })])(),
    r => r.pick([() => async (a, b) => a, () => function (a) { return a; }, () => (...a) => a, () => async () => 1, () => class { constructor(a) { this.a = a; } }, () => (function (a, b) {}).bind(null), () => (a = 1) => a])(),
    r => ({ [r.pick(['length', 'size'])]: r.pick([0, 1, 2, -1, 1.5, NaN, '1', undefined, 2 ** 53, Infinity]) }),
    r => r.pick([() => Object(r.pick(['', 's', ' '])), () => Object(r.int(3)), () => Object(r.bool()), () => Object(BigInt(r.int(3) - 1)), () => Object(MARK), () => BigInt(r.int(5) - 2)])(),
    r => ({ $$typeof: r.pick([Symbol.for('react.element'), 60103, undefined, Symbol.for('react.portal')]) }),
    r => { const { Readable, Writable, Duplex, Transform, Stream } = require('stream'), s = r.pick([() => new Readable(), () => new Writable(), () => new Duplex(), () => new Transform({ transform() {} }), () => new Stream(), () => ({ pipe() {} })])(); if (r.bool(0.3) && s.destroy) s.destroy(); return s; },
];
const anyGen = (r, c, d = 0) => {
    if (r.bool(0.14)) return r.pick(MISC)(r, c);
    if (!d && r.bool(0.12)) return kindArr(r, c, d);
    const x = r.int(d > 2 ? 11 : 14);
    switch (x) {
        case 0: return undefined; case 1: return null; case 2: return r.bool(); case 3: case 4: return T.int().gen(r, c); case 5: return r.pick(SPECIAL_FP);
        case 6: case 7: return T.str().gen(r, c); case 8: return BigInt(r.int(5) - 1); case 9: return r.bool() ? Symbol.iterator : MARK;
        case 10: return r.pick([function f() {}, () => 1, async () => 2, class A {}, Date, Math.max]);
        case 11: { const n = r.int(4), a = []; for (let i = 0; i < n; i++) a.push(anyGen(r, c, d + 1)); return a; }
        case 12: { const o = {}; const n = r.int(3); for (let i = 0; i < n; i++) o[r.pick(['a', 'b', 'c', 'then', 'length'])] = anyGen(r, c, d + 1); return o; }
        default: return r.pick([() => new Date(0), () => /x/g, () => new Map([[1, 2]]), () => new Set([1]), () => new Error('e'), () => Object.create(null), () => new Uint8Array(2), () => new (class K {})(), () => Object(1), () => Object('s'), () => Promise.resolve(1), () => new WeakMap(), () => new ArrayBuffer(1), () => Buffer.from('x'), () => new Proxy({}, {}), () => new Int32Array(1), () => JSON, () => Math, () => new URL('http://a/'), () => new Float64Array(1)])();
    }
};
T.any = (o = {}) => ({ kind: 'any', anything: !o.gen, el: 'val', mk: single((eng, st, name) => V.val(eng.decl(name, 'Val'))), gen: (r, c) => o.gen ? o.gen(r, c) : anyGen(r, c) });
// an arbitrary object (not an array, not a function), read only through its properties
const objGen = (r, c, d = 0) => {
    const val = () => d < 2 && r.bool(0.3) ? objGen(r, c, d + 1) : r.pick([() => undefined, () => null, () => 0, () => -0, () => NaN, () => r.int(3), () => '', () => 'x', () => true, () => false, () => [1], () => ({})])();
    const o = r.bool(0.15) ? Object.create(null) : r.bool(0.2) ? Object.create({ a: val(), inherited: 1 }) : {}, n = r.bool(0.85) ? r.int(5) : r.int(40);
    for (let i = 0; i < n; i++) { const k = r.bool(0.85) ? r.pick(KEYS) : 'k' + i; if (r.bool(0.05)) Object.defineProperty(o, k, { value: val(), enumerable: false, configurable: true, writable: true }); else o[k] = val(); }
    return o;
};
const KEYS = ['a', 'b', 'c', 'A', 'B', 'x', '0', '1', '10', '', 'a b', 'length', MARK, Symbol.iterator];
T.obj = (o = {}) => ({ kind: 'obj', el: 'val', mk: single((eng, st, name) => { const e = eng.decl(name, 'Int'); st.assume(`(not (oisarr ${e}))`, cmp('<=', '0', e)); return V.obj(`(VObj ${e})`); }), gen: (r, c) => o.gen ? o.gen(r, c) : objGen(r, c) });
T.key = (o = {}) => T.or({ ...T.str(), gen: r => r.pick(KEYS.filter(k => typeof k === 'string')) }, { ...T.nat({ gmax: 11 }) }, ...(o.symbols ? [{ kind: 'sym', el: 'val', mk: single((eng, st, name) => { const e = eng.decl(name, 'Int'); return { t: 'sym', e }; }), gen: r => r.bool() ? MARK : Symbol.iterator }] : []));
// primitive values only (no objects, no functions)
T.prim = () => ({ kind: 'any', el: 'val', mk: single((eng, st, name) => { const e = eng.decl(name, 'Val'); st.assume(`(not (or ((_ is VObj) ${e}) ((_ is VFn) ${e})))`); return V.val(e); }), gen: (r, c) => { const x = r.int(9); return x === 0 ? undefined : x === 1 ? null : x === 2 ? r.bool() : x < 4 ? T.int().gen(r, c) : x < 6 ? r.pick(SPECIAL_FP) : x === 6 ? BigInt(r.int(5) - 1) : x === 7 ? (r.bool() ? Symbol.iterator : MARK) : T.str().gen(r, c); } });
// opaque tokens: values only passed around, kept distinct when replayed
T.tok = () => ({ kind: 'any', el: 'val', mk: single((eng, st, name) => V.val(eng.decl(name, 'Val'))), gen: (r, c) => r.bool(0.25) ? r.int(3) : r.bool(0.2) ? undefined : r.bool(0.15) ? r.pick([null, 0, '', NaN, false, true, 'x']) : { tok: ++c.tok } });
// a thenable or plain value, as await sees it
const turn = { n: 0, armed: false, now() { if (!turn.armed) { turn.armed = true; queueMicrotask(() => { turn.n++; turn.armed = false; }); } return turn.n; } };
const realSetTimeout = setTimeout;
const promGen = (r, c, o = {}) => {
    const v = o.bools && r.bool(0.6) ? r.pick([true, false, true, 1, 'true', null]) : r.bool(0.2) ? undefined : { tok: ++c.tok };
    if (r.bool(0.35)) return v;
    const rej = r.bool(c.rejectP === undefined ? 0.25 : c.rejectP), delay = r.int(4);
    const p = new Promise((res, rj) => { const fin = () => rej ? rj(v) : res(v); if (!delay) fin(); else if (c.later && c.later.on) c.later.push({ n: delay * 2, fin }); else realSetTimeout(fin, delay); });
    p.__spec = { value: v, rejects: rej, reason: v, settled: false };
    p.then(() => { p.__spec.settled = true; }, () => { p.__spec.settled = true; });
    return p;
};
T.prom = (o = {}) => ({ kind: 'prom', el: 'val', mk: single((eng, st, name) => V.val(eng.decl(name, 'Val'))), gen: (r, c) => promGen(r, c, o) });
// an opaque function of the environment; its calls are recorded in one common trace
T.ofn = (o = {}) => {
    const inv = e => `(and ((_ is VFn) ${e}) (<= 0 (vfn ${e})))`;
    return {
        kind: 'any', el: 'val', elInv: inv, mk: single((eng, st, name) => { const e = eng.decl(name, 'Val'); st.assume(inv(e)); return V.ofn(e); }),
        gen: (r, c) => { const g = o.ret || T.tok(); const p = o.throws === false ? 0 : r.pick([0, 0, 0, 0.2]); return function opaque(...args) { const ok = r.next() >= p, v = g.gen(r, c), e = new Error('opaque' + otrace.length); otrace.push({ callee: opaque, args, v, threw: !ok, e, when: clock.t++ }); if (otrace.length > 5000) { const x = new Error('runaway'); x.runaway = true; throw x; } if (!ok) throw e; return v; }; }
    };
};
T.const = (v) => ({ kind: 'const', el: 'val', mk: single(() => v === undefined ? V.undef : v === null ? V.nul : typeof v === 'boolean' ? V.bool(String(v)) : typeof v === 'number' ? V.num(v) : V.lit(v)), gen: () => v });
T.oneOf = (...xs) => T.or(...xs.map(T.const));
T.or = (...ts) => ({ kind: 'or', el: 'val', ts, mk: (eng, st, name) => ts.flatMap(t => t.mk(eng, st.clone(), name)), gen: (r, c) => r.pick(ts).gen(r, c) });
T.opt = t => T.or(T.const(undefined), t);
T.arr = (t, o = {}) => ({
    kind: 'arr', t, el: { seq: t.el },
    mk: (eng, st, name) => { const len = eng.decl(name + '_len', 'Int'); st.assume(cmp('<=', '0', len), cmp('<=', len, '4294967294')); const c = { k: 'arr', el: t.el, arr: eng.decl(name, `(Array Int ${sortOf(t.el)})`), len }; 
        if (t.o && t.o.min !== undefined) st.assume(`(forall ((k Int)) (! (<= ${TT.intLit(t.o.min)} (select ${c.arr} k)) :pattern ((select ${c.arr} k))))`);
        if (t.o && t.o.max !== undefined) st.assume(`(forall ((k Int)) (! (<= (select ${c.arr} k) ${TT.intLit(t.o.max)}) :pattern ((select ${c.arr} k))))`);
        if (t.elInv) st.assume(`(forall ((k Int)) (! ${t.elInv(`(select ${c.arr} k)`)} :pattern ((select ${c.arr} k))))`);
        return [{ st, v: eng.alloc(st, c) }]; },
    gen: (r, c0) => { let c = c0; if (t.anything && r.bool(0.15)) return kindArr(r, c0, 0); const n = r.bool(0.7) ? r.int(5) : !o.maxLen && !(c.depth > 0) && r.bool(0.06) ? sizeHint(r, c, 600) : r.int(o.maxLen || 14); const a = []; if (c0.lens) c0.lens.push(n); c = { ...c0, lens: undefined, depth: (c0.depth || 0) + 1, get tok() { return c0.tok; }, set tok(v) { c0.tok = v; } }; for (let i = 0; i < n; i++) a.push(a.length && r.bool(o.dup === undefined ? 0.2 : o.dup) ? r.pick(a) : t.gen(r, c)); return a; }
});
T.tup = (...ts) => ({ kind: 'tup', ts, el: 'val', mk: (eng, st, name) => { let outs = [{ st, v: [] }]; ts.forEach((t, i) => { outs = outs.flatMap(o => t.mk(eng, o.st, name + i).map(x => ({ st: x.st, v: [...o.v, x.v] }))); }); return outs.map(o => ({ st: o.st, v: eng.alloc(o.st, { k: 'tup', items: o.v }) })); }, gen: (r, c) => ts.map(t => t.gen(r, c)) });
T.rec = (fs, o = {}) => ({
    kind: 'rec', fs, el: 'val',
    mk: (eng, st, name) => { let outs = [{ st, v: {} }]; for (const k of Object.keys(fs)) outs = outs.flatMap(x => { const r = []; if (fs[k].optional) r.push({ st: x.st.clone(), v: x.v }); const t = fs[k].optional || fs[k]; return [...r, ...t.mk(eng, x.st.clone(), name + '_' + k).map(y => ({ st: y.st, v: { ...x.v, [k]: y.v } }))]; }); return outs.map(x => ({ st: x.st, v: eng.alloc(x.st, { k: 'rec', fields: x.v, input: true }) })); },
    gen: (r, c) => { const x = {}; for (const k of Object.keys(fs)) { const f = fs[k]; if (f.optional) { if (r.bool()) x[k] = f.optional.gen(r, c); } else x[k] = f.gen(r, c); } return x; }
});
T.optional = t => ({ optional: t });
// a callback supplied by the environment: returns (or throws) anything, recorded in a ghost trace
T.cb = (o = {}) => {
    const ret = o.ret || T.any();
    return {
        kind: 'cb', el: 'val', o,
        mk: single((eng, st, name) => {
            const nm = `${name}#${++cbN}`;
            const tr = { k: 'trace', n: '0', args: eng.decl('targs0', '(Array Int (JSeq Val))'), clk: eng.decl('tclk0', '(Array Int Int)'), aw: eng.decl('taw0', '(Array Int Int)') };
            st.heap.set('trace:' + nm, tr);
            const kind = ret.kind === 'int' ? 'int' : ret.kind === 'bool' ? 'bool' : ret.kind === 'str' ? 'str' : ret.kind === 'const' ? 'const' : 'val';
            const sort = { int: 'Int', bool: 'Bool', str: 'String', val: 'Val', const: 'Bool' }[kind];
            const f = eng.declFun('ret_' + name, ['Int'], sort);
            const at = (eng, c, k, st, pure) => {
                if (kind === 'const') return ret.mk(eng, st, 'x')[0].v;
                const e = `(${f} ${k})`;
                if (kind === 'int' && !pure) st.assume(`(<= ${TT.intLit(Number.MIN_SAFE_INTEGER)} ${e})`, `(<= ${e} ${TT.intLit(Number.MAX_SAFE_INTEGER)})`);
                return { t: kind, e };
            };
            return eng.alloc(st, { k: 'cb', name: nm, ret: { at }, fthrow: eng.declFun('throws_' + name, ['Int'], 'Bool'), fexc: eng.declFun('exc_' + name, ['Int'], 'Val'), pure: o.throws === false, arity: o.arity === "any" ? eng.decl("arity", "Int") : o.arity, props: {} });
        }),
        gen: (r, c) => {
            const rets = [], throwsAt = [], excs = [];
            const pThrow = o.throws === false ? 0 : r.pick([0, 0, 0.15, 0.5]);
            const g = o.gret || ret;
            const sub = { ...c };
            const T1 = { calls: [], retAt: k => { while (rets.length <= k) { rets.push(g.gen(r, sub)); throwsAt.push(r.next() < pThrow); excs.push(new Error('cb' + rets.length)); } return rets[k]; }, throwAt: k => { T1.retAt(k); return throwsAt[k]; }, excAt: k => { T1.retAt(k); return excs[k]; } };
            const f = function (...args) {
                const k = T1.calls.length;
                if (k > 5000) { const e = new Error('runaway: callback invoked more than 5000 times'); e.runaway = true; throw e; }
                const prev = k ? rets[k - 1] : null;
                T1.calls.push({ args, thisv: this, when: clock.t++, turn: turn.now(), prevSettled: !(prev && prev.__spec) || prev.__spec.settled });
                const v = T1.retAt(k);
                if (throwsAt[k]) throw excs[k];
                return v;
            };
            let fn = f;
            if (o.arity !== undefined) Object.defineProperty(fn, 'length', { value: o.arity === 'any' ? r.int(4) : o.arity });
            traces.set(fn, T1);
            return fn;
        }
    };
};
// a date, valid or not, read only through its methods
T.date = () => ({ kind: 'date', el: 'val', mk: single((eng, st, name) => { const e = eng.decl(name, 'Int'); st.assume(`(not (oisarr ${e}))`, cmp('<=', '0', e), `(= (otag (VObj ${e})) "Date")`); return V.obj(`(VObj ${e})`); }), gen: r => new Date(r.pick([0, -1, NaN, 1e12, 8.64e15, -62198755200000, r.int(2 ** 31) * 1000])) });
// an arbitrary regular expression
T.regexp = (o = {}) => ({
    kind: 'regexp', el: 'val', o,
    mk: single((eng, st, name) => ({ t: 'regex', src: '<' + name + '>', sticky: false })),
    gen: r => new RegExp(r.pick(['a', 'b', 'a+', '[0-9]+', '^a', 'a$', 'x*', '(a)(b)?', '.', '\\s+', 'bc', '-', '[^a]', '\\u4e2d', '', '(a)(b)?(a*)', '(a|b)*', '((a+)b+)+', '(?:(b)|(a+))-?']), r.pick(['', '', '', 'i', 'g', 'm'])),
});
// pattern objects as array elements, known only to be patterns
T.regexps = (o = {}) => T.arr({ kind: 'regexpobj', el: 'val', elInv: e => `(and ((_ is VObj) ${e}) (<= 0 (vo ${e})) (not (oisarr (vo ${e}))) (= (otag ${e}) "RegExp"))`, gen: r => { const re = T.regexp().gen(r); if (r.bool(0.3)) re.lastIndex = r.int(3); return re; } }, o);
module.exports = { T, Rng, anyGen, objGen, KEYS, SPECIAL_STR, SPECIAL_NUM, SPECIAL_FP };
