'use strict';
const { T } = require('../lib/types');
const { errName } = require('../lib/speclib');
const F = 'packages/function/src/';
const C = module.exports = [];
// ---- F06 collecting and running many: these interleave freely, so they are exercised, not proved
const ops = r => Array.from({ length: 1 + r.int(9) }, () => ({ wait: r.int(4), done: r.bool(0.3), settle: r.bool(0.4), plain: r.bool(0.1) }));
C.push({
    id: 'collectItems', property: 'F06', uses: { collectItems: F + 'control/collectItems.ts' }, bounded: 'sequences of up to 9 overlapping calls with promises fulfilled in any order', runMs: 2500, runMax: 2500, settleMs: 8000,
    drive: `async (total, isRestart, isAccumulate, ops) => {
        const collect = collectItems({ total, isRestart, isAccumulate });
        const out = [];
        for (let k = 0; k < ops.length; k++) {
            const o = ops[k];
            const p = o.plain ? k : new Promise(res => { o.wait ? setTimeout(() => res(k), o.wait) : res(k); });
            const r = total === undefined ? collect(p, o.done) : collect(p);
            out.push(r); if (o.settle) await r;
        }
        return Promise.all(out);
    }`,
    params: { total: { ...T.tok(), gen: r => r.pick([undefined, undefined, 1, 2, 3, 4]) }, isRestart: { ...T.tok(), gen: r => r.pick([undefined, true, true, false]) }, isAccumulate: { ...T.tok(), gen: r => r.pick([undefined, true, false]) }, ops: { ...T.tok(), gen: ops } },
    ensures: {
        'every-batch-has-exactly-the-promises-given-since': ({ total, isRestart, isAccumulate, ops, result }) => {
            let batch = [], over = false;
            return ops.every((o, k) => {
                if (!o.plain) batch.push(k);
                const done = !over && (total === undefined ? o.done : batch.length % total === 0);
                const want = done ? { done: true, value: batch.slice() } : { done: false, value: undefined };
                if (done) { if (!isRestart) over = true; if (!isAccumulate) batch = []; }
                return result[k].done === want.done && (want.value === undefined ? result[k].value === undefined : JSON.stringify(result[k].value) === JSON.stringify(want.value));
            });
        },
    },
});
C.push({
    id: 'collectItemsTotal', property: 'F06', uses: { collectItems: F + 'control/collectItems.ts' },
    drive: 'total => { collectItems({ total }); return true; }',
    params: { total: T.or(T.int(), T.fp(), T.str()) },
    ensures: { 'a-count': ({ total }) => typeof total === 'string' ? total === '' : total === 0 || Number.isNaN(total) || (Number.isInteger(total) && total > 0) },
    throws: { 'anything-else-is-refused': ({ total, error }) => errName(error) === 'TypeError' && !(Number.isInteger(total) && total > 0) },
});
const specs = r => Array.from({ length: r.bool(0.2) ? 8 + r.int(8) : r.int(9) }, () => ({ kind: r.pick(['sync', 'async', 'async', 'async', 'promise', 'value']), wait: r.int(4), fails: r.bool(0.15) ? 1 + r.int(3) : 0 }));
C.push({
    id: 'parallel', property: 'F06', uses: { parallel: F + 'control/parallel.ts' }, bounded: 'up to 15 tasks of random kinds, durations and failures, any concurrency, up to 2 retries', runMs: 3500, runMax: 1500, settleMs: 8000,
    drive: `async (specs, concurrency, maxRetry, handle) => {
        const log = { started: [], done: [], data: [], errors: [], runs: specs.map(() => 0), most: 0 }; let live = 0;
        const tasks = specs.map((s, i) => {
            const value = 'v' + i, fail = () => log.runs[i]++ < s.fails;
            if (s.kind === 'value') return value;
            if (s.kind === 'promise') return Promise.resolve(value);
            if (s.kind === 'sync') return () => { if (fail()) throw new Error('e' + i); return value; };
            return () => { live++; log.most = Math.max(log.most, live); return new Promise((res, rej) => setTimeout(() => { live--; fail() ? rej(new Error('e' + i)) : res(value); }, s.wait)); };
        });
        const options = { concurrency, maxRetry, onStart: i => { log.started.push(i); }, onData: (i, v) => { log.data.push([i, v]); } };
        if (concurrency === undefined) delete options.concurrency;
        if (handle) options.onError = (i, e) => { log.errors.push(i); return 'd' + i; };
        try { log.result = await parallel(tasks, options); } catch (e) { log.error = e; }
        if (log.error) await new Promise(r => setTimeout(r, 12 * (1 + maxRetry)));
        return log;
    }`,
    params: { specs: { ...T.tok(), gen: specs }, concurrency: { ...T.tok(), gen: r => r.pick([undefined, 1, 1, 2, 2, 3, 20]) }, maxRetry: { ...T.tok(), gen: r => r.int(3) }, handle: { ...T.tok(), gen: r => r.bool() } },
    ensures: {
        'never-more-at-once-than-allowed': ({ concurrency, result }) => concurrency === undefined || result.most <= concurrency,
        'each-task-starts-once-and-in-order': ({ specs, result }) => result.started.every((x, k) => x === k) && (result.error !== undefined || result.started.length === specs.length),
        'every-result-in-its-place': ({ specs, maxRetry, result }) => result.error !== undefined || (result.result.length === specs.length && specs.every((s, i) => result.result[i] === (failing(s, maxRetry) ? 'd' + i : 'v' + i))),
        'tried-as-often-as-allowed': ({ specs, maxRetry, result }) => result.error !== undefined || specs.every((s, i) => ['value', 'promise'].includes(s.kind) || result.runs[i] === Math.min(s.fails, maxRetry) + 1),
        'told-of-every-result': ({ specs, result }) => result.error !== undefined || (result.data.length === specs.length && specs.every((s, i) => result.data.some(d => d[0] === i && d[1] === result.result[i]))),
        'the-handler-hears-of-every-failure-once': ({ specs, maxRetry, handle, result }) => !handle || (result.error === undefined && JSON.stringify(result.errors.slice().sort((a, b) => a - b)) === JSON.stringify(specs.map((s, i) => failing(s, maxRetry) ? i : -1).filter(i => i >= 0))),
        'fails-exactly-if-a-task-does-and-nobody-handles-it': ({ specs, maxRetry, handle, result }) => (result.error !== undefined) === (!handle && specs.some(s => failing(s, maxRetry))) && (result.error === undefined || result.error.name === 'AggregateError'),
        'as-many-at-once-as-allowed': ({ specs, concurrency, result }) => result.error !== undefined || result.most >= 1 || specs.every(s => s.kind !== 'async'),
    },
});
const failing = (s, maxRetry) => !['value', 'promise'].includes(s.kind) && s.fails > maxRetry;
