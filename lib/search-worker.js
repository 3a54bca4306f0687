'use strict';
// Executes the real code on generated inputs and evaluates the contract's
// clauses on what it observed.  Runs in a worker so that a hang or a heap
// exhaustion of the code under test is itself an observation.
const { parentPort, workerData } = require('worker_threads');
const util = require('util');
const { Rng } = require('./types');
const speclib = require('./speclib');
const host = require('./env');
const wd = workerData;
const progress = new Int32Array(wd.progress); // [case, phase]
const c = require(wd.contractFile).find(x => x.id === wd.id);
process.on('unhandledRejection', () => {});
const fns = require(wd.bundle);
let fn = fns[c.id + '#fn'];
if (c.drive) { // the client program, with its free names bound to the real exports
    const names = Object.keys(c.uses || {});
    fn = new Function(...names, 'H', 'return (' + c.drive.toString() + ')')(...names.map(n => fns[c.id + '#' + n]), host.$);
}
const clone = v => {
    if (Array.isArray(v)) return v.map(clone);
    if (v && typeof v === 'object' && (Object.getPrototypeOf(v) === Object.prototype) && !('tok' in v)) { const o = {}; for (const k of Object.keys(v)) o[k] = clone(v[k]); return o; }
    return v;
};
const deepSame = (a, b) => Object.is(a, b) || (Array.isArray(a) && Array.isArray(b) ? a.length === b.length && a.every((x, i) => deepSame(x, b[i])) : a && b && typeof a === 'object' && typeof b === 'object' && Object.getPrototypeOf(a) === Object.prototype && Object.getPrototypeOf(b) === Object.prototype && Object.keys(a).length === Object.keys(b).length && Object.keys(a).every(k => k in b && deepSame(a[k], b[k])));
const show = v => util.inspect(v, { depth: 5, maxArrayLength: 60, maxStringLength: 400, breakLength: 160 });
const names = Object.keys(c.params || {});
const realRandom = Math.random, realNow = Date.now, realSet = globalThis.setTimeout, realClear = globalThis.clearTimeout, realImm = globalThis.setImmediate;
// a fake clock: timers fire in the order of their deadlines, as soon as nothing else is ready
function fakeTimers(r, later) {
    const q = speclib.timers; q.length = 0; later.on = true; let vt = 1e12, done = false;
    globalThis.setTimeout = (fn, ms = 0, ...a) => { const t = { fn, a, ms, at: vt + Math.max(1, Number(ms) || 0), when: speclib.clock.t++, n: q.length, [Symbol.toPrimitive]: () => t.n + 1 }; q.push(t); return t; };
    globalThis.clearTimeout = t => { if (t && typeof t === 'object') t.cleared = true; };
    Date.now = () => { speclib.reads.push(vt); return vt; };
    const pump = () => {
        if (done) return;
        for (const x of later.splice(0)) if (--x.n > 0) later.push(x); else x.fin();
        if (r.bool(0.15)) { const w = q.filter(t => !t.fired && !t.cleared).sort((a, b) => a.at - b.at)[0]; vt += r.int(w && r.bool(0.6) ? Math.min(w.at - vt, 2 ** 31) + 3 : 12); }
        if (r.bool(0.5)) { const w = q.filter(t => !t.fired && !t.cleared).sort((a, b) => a.at - b.at)[0]; if (w) { vt = Math.max(vt, w.at); w.fired = true; w.fn(...w.a); } }
        realImm(pump);
    };
    realImm(pump);
    return () => { done = true; later.on = false; for (const x of later.splice(0)) x.fin(); globalThis.setTimeout = realSet; globalThis.clearTimeout = realClear; Date.now = realNow; };
}
const cryptoObj = globalThis.crypto;
globalThis.setClock = t => { Date.now = () => t; };

const dec = m => { // values read from a counter-model
    if (m && typeof m === 'object' && !Array.isArray(m)) {
        if (m.$u) return undefined; if (m.$n) return Number(m.$n); if (m.$obj) return modelObj(m.$obj); if (m.$fn) return function modelFn() {}; if (m.$big) return BigInt(m.$big); if (m.$sym) return Symbol.for('m' + m.$sym);
        if (m.$no) throw new Error('no');
        return Object.fromEntries(Object.entries(m).map(([k, x]) => [k, dec(x)]));
    }
    return Array.isArray(m) ? m.map(dec) : m;
};
const objs = new Map();
const modelObj = k => { if (!objs.has(k)) objs.set(k, { tok: 'm' + k }); return objs.get(k); };

function makeCase(k) {
    const r = new Rng((wd.seed * 7919 + k * 104729 + 17) | 0);
    let aw = 0;
    const ctx = { consts: wd.consts, tok: 0, later: [], lens: [], rng: r, awaitCount: () => aw };
    let vals;
    const nm = wd.models.length, ne = (c.examples || []).length;
    if (k < nm) {
        const m = wd.models[k]; objs.clear();
        vals = names.map(n => { const d = c.params[n]; if (d.kind === 'cb' || !(n in m)) return d.gen(r, ctx); try { return dec(m[n]); } catch { return d.gen(r, ctx); } });
    } else if (k < nm + ne) {
        let e = c.examples[k - nm]; if (typeof e === 'function') e = e(r, ctx); vals = names.map((n, i) => (i in e ? e[i] : n in e ? e[n] : c.params[n].gen(r, ctx)));
    } else vals = c.gen ? c.gen(r, ctx, wd) : names.map(n => c.params[n].gen(r, ctx));
    if (!Array.isArray(vals)) vals = names.map(n => vals[n]);
    return { r, ctx, vals };
}
async function runCase(k) {
    const { r, ctx, vals } = makeCase(k);
    const env = {};
    names.forEach((n, i) => { env[n] = vals[i]; env['old_' + n] = clone(vals[i]); });
    if (c.requires) for (const f of [].concat(c.requires)) { let ok; try { ok = f(env); } catch { ok = false; } if (!ok) return null; }
    if (c.sane) { let ok; try { ok = c.sane(env); } catch { ok = false; } if (!ok) return null; } // cost guard for concrete runs only
    speclib.clock.t = 0; speclib.otrace.length = 0; speclib.draws.length = speclib.reads.length = 0;
    Math.random = () => { const x = r.int(6); const y = x === 0 ? 0 : x === 1 ? 1 - 2 ** -53 : r.next(); speclib.draws.push(y); return y; };
    cryptoObj.getRandomValues = a => { for (let i = 0; i < a.length; i++) { const x = r.int(6); a[i] = x === 0 ? 0 : x === 1 ? -1 : Math.floor(r.next() * 4294967296); } if (a.length === 1) speclib.draws.push(a[0] / 2 ** (8 * a.BYTES_PER_ELEMENT)); return a; };
    const args = []; names.forEach((n, i) => { if (c.params[n].rest) args.push(...vals[i]); else args.push(vals[i]); });
    if (!c.keepUndef) while (args.length && args[args.length - 1] === undefined) args.pop();
    const stop = c.timers ? fakeTimers(r, ctx.later) : null;
    host.$begin(c.env, r);
    let state = c.before ? c.before(env, ctx) : null;
    let out, thrown = false, err;
    progress[1]++;
    try {
        out = fn.apply(undefined, args);
        if (out && typeof out.then === 'function' && !c.rawPromise) {
            let timer; const to = new Promise((_, rj) => { timer = realSet(() => rj(HANG), c.settleMs || 3000); });
            try { out = await Promise.race([out, to]); } finally { realClear(timer); }
        }
    } catch (e) { thrown = true; err = e; }
    finally { if (c.env === 'scratch') host.$end(); if (stop) stop(); Math.random = realRandom; Date.now = realNow; if (c.after) { try { c.after(state, env); } catch {} } }
    const describe = () => ({ args: Object.fromEntries(names.map(n => [n, show(env['old_' + n])])), calls: Object.fromEntries(names.filter(n => c.params[n].kind === 'cb').map(n => [n, show(speclib.traces.get(env[n]).calls.map(x => x.args))])), outcome: thrown ? 'threw ' + show(err) : 'returned ' + show(out) });
    if (err === HANG) return { clause: 'settles', ...describe() };
    if (err && err.runaway) return { clause: 'terminates', ...describe() };
    env.result = out; env.threw = thrown; env.error = err; env.state = state; env.ctx = ctx;
    const clauses = { ...(thrown ? c.throws || { 'does-not-throw': () => false } : c.ensures || {}), ...(c.always || {}), ...(c.observeAlways || {}), ...(thrown ? {} : c.observe || {}) };
    for (const [nm, f] of Object.entries(clauses)) {
        let ok, why; try { ok = f(env); } catch (e) { ok = false; why = 'clause raised ' + e.message; }
        if (!ok) return { clause: nm, why, ...describe() };
    }
    for (const n of names) {
        if ((c.modifies || []).includes(n) || c.params[n].kind === 'cb' || c.params[n].kind === 'any') continue;
        if (!deepSame(env[n], env['old_' + n])) return { clause: 'frame-' + n, after: show(env[n]), ...describe() };
    }
    return null;
}
const HANG = new Error('did not settle');
(async () => {
    const t0 = Date.now(); let ran = 0;
    const only = wd.only;
    for (let k = only === undefined ? 0 : only; only === undefined ? k < wd.max && Date.now() - t0 < wd.ms : k === only; k++) {
        progress[0] = k;
        let f;
        try { f = await runCase(k); } catch (e) { f = { clause: 'harness', why: e.stack, args: {}, harness: true }; }
        ran++;
        if (f) { parentPort.postMessage({ found: { case: k, ...f }, ran, executed: progress[1] }); return; }
    }
    parentPort.postMessage({ found: null, ran, executed: progress[1] });
})();
