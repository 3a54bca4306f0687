'use strict';
// Specification vocabulary, concrete meaning.  The same clauses are read
// symbolically by spec.js; here they are executed against recorded runs.
const reg = new Map();          // spec functions by name
const traces = new WeakMap();   // mock callback -> trace
let clock = { t: 0 };
const otrace = [];             // calls of opaque functions, in order
const timers = [];             // timers set, in order (fake clock)
const reads = [];              // what Date.now returned, in order
const draws = [];              // what Math.random returned, in order
const env = require('./env').$;
const S = {};
S.forall = (lo, hi, f) => { for (let k = lo; k < hi; k++) if (!f(k)) return false; return true; };
S.exists = (lo, hi, f) => { for (let k = lo; k < hi; k++) if (f(k)) return true; return false; };
S.implies = (a, b) => !a || !!b; // antecedents that guard evaluation use && / ?: instead
S.iff = (a, b) => !!a === !!b;
S.same = (a, b) => Object.is(a, b) || (a === 0 && b === 0);
const tr = f => { const t = traces.get(f); if (!t) throw new Error('not a recorded callback'); return t; };
S.ncalls = f => tr(f).calls.length;
S.nargs = (f, k) => (tr(f).calls[k] || { args: [] }).args.length;
S.arg = (f, k, i) => (tr(f).calls[k] || { args: [] }).args[i];
S.ret = (f, k) => tr(f).retAt(k);
S.threw = (f, k) => tr(f).throwAt(k);
S.exc = (f, k) => tr(f).excAt(k);
S.when = (f, k) => (tr(f).calls[k] || {}).when;
const ot = k => otrace[k] || { args: [] };
S.ocalls = () => otrace.length; S.ocallee = k => ot(k).callee; S.onargs = k => ot(k).args.length; S.oarg = (k, i) => ot(k).args[i]; S.oret = k => ot(k).v; S.othrew = k => !!ot(k).threw; S.oexc = k => ot(k).e; S.owhen = k => ot(k).when;
S.nreads = () => reads.length; S.readAt = k => reads[k];
S.ndraws = () => draws.length; S.draw = k => draws[k];
S.ntimers = () => timers.length; S.timerMs = k => (timers[k] || {}).ms; S.timerAt = k => (timers[k] || {}).when; S.liveTimers = () => timers.filter(t => !t.fired && !t.cleared).length;
const fsc = k => env.calls[k] || { op: '', args: [] };
S.fsn = () => env.calls.length; S.fsname = k => fsc(k).op; S.fsnargs = k => fsc(k).args.length; S.fsarg = (k, i) => fsc(k).args[i]; S.fsok = k => !!fsc(k).ok; S.fsval = k => fsc(k).v; S.fsIs = (k, b) => !!(fsc(k).bits && fsc(k).bits[b]);
S.pathFn = (f, ...a) => require('path')[f](...a); S.json = v => JSON.stringify(v); S.jsonOk = v => { try { JSON.stringify(v); return true; } catch { return false; } };
S.awaits = (f, k) => (tr(f).calls[k] || {}).aw;
S.res = v => (v && v.__spec ? v.__spec.value : v);
S.rej = v => !!(v && v.__spec && v.__spec.rejects);
S.reason = v => (v && v.__spec ? v.__spec.reason : undefined);
S.concat = a => a.join('');
S.sub = (s, i, n) => s.substr(Math.max(i, 0), Math.max(n, 0));
S.code = (s, i) => (i >= 0 && i < s.length ? s.charCodeAt(i) : -1);
S.errName = e => (e && typeof e === 'object' ? e.name : undefined);
S.isErr = e => e instanceof Error || (e && typeof e === 'object' && typeof e.message === 'string' && /Error$/.test(e.name || ''));
S.isArr = Array.isArray;
S.asInt = x => x; S.asStr = x => x; S.asBool = x => x; S.asVal = x => x; S.asNum = x => x;
S.isInt = x => Number.isSafeInteger(x);
S.min = (a, b) => (a < b ? a : b); S.max = (a, b) => (a > b ? a : b);
S.div = (a, b) => Math.floor(a / b); S.mod = (a, b) => a - b * Math.floor(a / b);
S.tag = v => Object.prototype.toString.call(v).slice(8, -1);
S.valueOf = v => (v === null || v === undefined ? v : typeof v.valueOf === 'function' ? v.valueOf() : v);
// whether the pattern occurs in the text, looked for from the start
S.finds = (re, s) => new RegExp(re.source, re.flags.replace(/g/g, '')).test(s);
S.matches = (re, s) => new RegExp(re.source, re.flags.replace(/[gy]/g, '')).test(s);
S.stripFront = (re, s) => s.replace(new RegExp('^' + re.source + '+'), ''); S.stripBack = (re, s) => s.replace(new RegExp(re.source + '+$'), ''); S.stripAll = (re, s) => s.replace(new RegExp(re.source, 'g'), ''); S.swapAll = (re, s, r) => s.replace(new RegExp(re.source, 'g'), () => r);
S.uri = encodeURIComponent; S.utc = d => d.toUTCString();
S.isGlobal = re => re.flags.includes('g');
S.nkey = v => (Object.is(v, -0) ? 0 : v);
S.sourceOf = f => (typeof f === 'function' ? Function.prototype.toString.call(f) : ''); S.protoOf = o => (o === undefined || o === null ? undefined : Object.getPrototypeOf(o)); S.inKey = (o, k) => k in Object(o);
S.builtin = n => n.split('.').reduce((o, k) => o[k], globalThis);
S.inst = (v, n) => n === 'stream.Stream' ? v instanceof require('stream').Stream : n === 'Buffer' ? Buffer.isBuffer(v) : v instanceof globalThis[n];
S.own = (o, k) => Object.prototype.hasOwnProperty.call(o, k); S.prop = (o, k) => o[k];
S.keysOf = (o, lv = 0) => [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys][lv](o);
S.truthy = v => !!v;
S.kindOf = v => { // the finite partition of JS values used by the verifier
    if (v === undefined) return 'undefined'; if (v === null) return 'null';
    const t = typeof v;
    if (t === 'number') return Number.isSafeInteger(v) && !Object.is(v, -0) ? 'int' : 'double';
    if (t === 'object') return Array.isArray(v) ? 'array' : 'object';
    return t;
};
const memoRec = fn => { let key = {}, tab = []; return (x, n) => { if (x !== key) { key = x; tab = []; } if (!(n > 0)) return fn(x, n); while (tab.length <= n) { const k = tab.length; tab.push(undefined); tab[k] = fn(x, k); } return tab[n]; }; };
S.rec = (name, params, ret, fn) => { const w = params.length === 2 && params[0] === 'str' && params[1] === 'int' ? memoRec(fn) : (...a) => fn(...a); reg.set(name, { name, params, ret, fn, rec: true }); w.specName = name; return w; };
S.macro = (name, fn) => { reg.set(name, { name, fn, macro: true }); return fn; };
module.exports = { ...S, S, reg, traces, clock, otrace, timers, draws, reads };
