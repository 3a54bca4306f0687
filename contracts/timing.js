'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, ncalls, arg, nargs, ret, threw, exc, when, res, rej, reason, errName, kindOf, isInt, min, max, ntimers, timerMs, timerAt, liveTimers, ndraws, draw, nreads, readAt } = require('../lib/speclib');
const F = 'packages/function/src/';
const C = module.exports = [];
const nullish = macro('nullish', v => v === undefined || v === null);
const PC = T.cb({ ret: T.prom() });
const failsAt = macro('failsAt', (f, k) => threw(f, k) || rej(ret(f, k)));
const whyAt = macro('whyAt', (f, k) => (threw(f, k) ? exc(f, k) : reason(ret(f, k))));
// ---- F04 retrying
const retryAt = macro('retryAt', (task, f, k) => nargs(f, k) === 2 && same(arg(f, k, 0), whyAt(task, k + 1)) && same(arg(f, k, 1), k + 1));
const stopped = macro('stopped', (task, f) => f !== undefined && ncalls(f) > 0 && ret(f, ncalls(f) - 1) === true);
const gaveUp = macro('gaveUp', f => failsAt(f, ncalls(f) - 1));
const ATTEMPTS = {
    'at-least-once-and-at-most-one-more-than-the-retries': ({ n, task }) => ncalls(task) >= 1 && ncalls(task) <= n + 1,
    'every-attempt-but-the-last-failed': ({ task }) => forall(0, ncalls(task) - 1, k => failsAt(task, k)),
    'leaves-no-timer-behind': () => liveTimers() === 0,
};
const INV = [
    ({ $i, task }) => $i === ncalls(task) - 1,
    ({ $a, task }) => $a.length === ncalls(task) && forall(0, ncalls(task), k => same($a[k], whyAt(task, k))),
    ({ task }) => forall(0, ncalls(task), k => failsAt(task, k)),
];
const allErrors = macro('allErrors', (n, task, error) => errName(error) === 'AggregateError' && ncalls(task) === n + 1 && error.errors.length === ncalls(task) && forall(0, ncalls(task), k => failsAt(task, k) && same(error.errors[k], whyAt(task, k))));
const WAIT = {
    'ends-with-the-first-success': ({ task, result }) => !gaveUp(task) && same(result, res(ret(task, ncalls(task) - 1))),
};
C.push({
    id: 'retry', property: 'F04', uses: { retry: F + 'catch/retry.ts' }, timers: true,
    drive: '(n, task, wait) => retry(n, task, { retryWait: wait })',
    params: { n: T.nat({ gmax: 6 }), task: PC, wait: T.or(T.const(undefined), T.nat({ gmax: 3 })) },
    requires: ({ wait }) => wait === undefined || wait <= 2147483647,
    inv: [...INV, ({ n, task, wait }) => ntimers() === (wait === undefined || wait === 0 ? 0 : min(ncalls(task), n)) && forall(0, ntimers(), k => timerMs(k) === wait && when(task, k) < timerAt(k) && implies(k + 1 < ncalls(task), timerAt(k) < when(task, k + 1)))],
    ensures: WAIT, throws: { 'all-errors-of-all-attempts': ({ n, task, error }) => allErrors(n, task, error) },
    always: { ...ATTEMPTS, 'waits-between-attempts': ({ task, wait }) => ntimers() === (wait === undefined || wait === 0 ? 0 : ncalls(task) - 1) && forall(0, ntimers(), k => timerMs(k) === wait && when(task, k) < timerAt(k) && timerAt(k) < when(task, k + 1)) },
});
C.push({
    id: 'retryRandomWait', property: 'F04', uses: { retry: F + 'catch/retry.ts' }, timers: true,
    drive: '(n, task, start, end) => retry(n, task, { retryWait: { start, end } })',
    params: { n: T.nat({ gmax: 6 }), task: PC, start: T.nat({ gmax: 5 }), end: T.nat({ gmax: 9 }) },
    requires: ({ start, end }) => start <= end && end <= 2147483647,
    inv: [...INV, ({ task, start, end }) => ntimers() <= ncalls(task) && forall(0, ntimers(), k => timerMs(k) >= start && timerMs(k) <= end)],
    ensures: WAIT, throws: { 'all-errors-of-all-attempts': ({ n, task, error }) => allErrors(n, task, error) },
    always: { ...ATTEMPTS, 'waits-within-the-range': ({ task, start, end }) => ntimers() <= ncalls(task) - 1 && forall(0, ntimers(), k => timerMs(k) >= start && timerMs(k) <= end) },
});
const EXTRA = {
    'told-of-every-failed-retry': ({ task, onRetry }) => onRetry === undefined || (ncalls(onRetry) === max(0, gaveUp(task) ? ncalls(task) - 1 : ncalls(task) - 2) && forall(0, ncalls(onRetry), k => retryAt(task, onRetry, k))),
};
const RINV = ({ task, onRetry }) => onRetry === undefined || (ncalls(onRetry) === max(0, ncalls(task) - 1) && forall(0, ncalls(onRetry), k => retryAt(task, onRetry, k) && !threw(onRetry, k) && ret(onRetry, k) !== true));
for (const both of [false, true]) C.push({
    id: both ? 'retryOnErrorOnRetry' : 'retryOnError', property: 'F04', uses: { retry: F + 'catch/retry.ts' }, timers: true,
    drive: '(n, task, onError, onRetry) => retry(n, task, { onError, onRetry })',
    params: { n: T.nat({ gmax: 6 }), task: PC, onError: T.cb({ ret: T.prom() }), onRetry: both ? T.cb() : T.const(undefined) },
    inv: [...INV, RINV, ({ $i, n, task, onError }) => ncalls(onError) === ($i >= n ? 1 : 0) && implies($i >= n, nargs(onError, 0) === 1 && same(arg(onError, 0, 0), whyAt(task, n)) && !threw(onError, 0) && ret(onError, 0) === undefined)],
    ensures: {
        'ends-with-the-first-success': ({ task, result, onError }) => gaveUp(task) || (same(result, res(ret(task, ncalls(task) - 1))) && ncalls(onError) === 0),
        'gives-up-only-when-told-or-all-attempts-failed': ({ n, task, onRetry }) => !gaveUp(task) || stopped(task, onRetry) || ncalls(task) === n + 1,
        'then-the-error-handler-decides': ({ task, onError, result }) => !gaveUp(task) || (ncalls(onError) === 1 && nargs(onError, 0) === 1 && same(arg(onError, 0, 0), whyAt(task, ncalls(task) - 1)) && !threw(onError, 0) && !rej(ret(onError, 0)) && same(result, res(ret(onError, 0)))),
        'a-retry-callback-saying-stop-stops': ({ task, onRetry }) => onRetry === undefined || (forall(0, ncalls(onRetry) - 1, k => ret(onRetry, k) !== true) && (gaveUp(task) || ncalls(onRetry) === 0 || ret(onRetry, ncalls(onRetry) - 1) !== true)),
    },
    throws: {
        'only-a-failing-callback': ({ onError, onRetry, error }) => (onRetry !== undefined && ncalls(onRetry) > 0 && threw(onRetry, ncalls(onRetry) - 1) && same(error, exc(onRetry, ncalls(onRetry) - 1)))
            || (ncalls(onError) === 1 && failsAt(onError, 0) && same(error, whyAt(onError, 0))),
    },
    always: { ...ATTEMPTS, ...EXTRA },
});
C.push({
    id: 'retryOnRetry', property: 'F04', uses: { retry: F + 'catch/retry.ts' }, timers: true,
    drive: '(n, task, onRetry) => retry(n, task, { onRetry })',
    params: { n: T.nat({ gmax: 6 }), task: PC, onRetry: T.cb() },
    inv: [...INV, RINV],
    ensures: {
        'ends-with-the-first-success': ({ task, result }) => gaveUp(task) || same(result, res(ret(task, ncalls(task) - 1))),
        'gives-up-silently-only-when-told': ({ task, onRetry, result }) => !gaveUp(task) || (stopped(task, onRetry) && result === undefined),
        'a-retry-callback-saying-stop-stops': ({ task, onRetry }) => forall(0, ncalls(onRetry) - 1, k => ret(onRetry, k) !== true) && (gaveUp(task) || ncalls(onRetry) === 0 || ret(onRetry, ncalls(onRetry) - 1) !== true),
    },
    throws: { 'all-errors-of-all-attempts-or-a-failing-callback': ({ n, task, onRetry, error }) => (ncalls(onRetry) > 0 && threw(onRetry, ncalls(onRetry) - 1) && same(error, exc(onRetry, ncalls(onRetry) - 1))) || allErrors(n, task, error) },
    always: { ...ATTEMPTS, ...EXTRA },
});
// ---- F08 delays, time limits, cancellation
const badTime = macro('badTime', (ms, error) => errName(error) === 'TypeError' && (ms > 2147483647 || !isInt(ms)));
const one2 = macro('one2', (f, x, y) => ncalls(f) === 1 && nargs(f, 0) === 2 && same(arg(f, 0, 0), x) && same(arg(f, 0, 1), y));
const gives = macro('gives', (f, k, r) => !failsAt(f, k) && same(r, res(ret(f, k))));
const MS = T.int({ gmin: -3, gmax: 40 });
const setOnce = macro('setOnce', ms => ntimers() === (ms > 0 ? 1 : 0) && (ms <= 0 || timerMs(0) === ms));
C.push({
    id: 'delay', property: 'F08', file: F + 'delay/delay.ts', timers: true,
    params: { ms: MS },
    ensures: {
        'waits-exactly-once-for-the-time-given': ({ ms }) => setOnce(ms),
        'and-only-then-resolves': ({ result }) => result === undefined && liveTimers() === 0,
    },
    throws: { 'only-for-a-time-no-timer-can-wait': ({ ms, error }) => badTime(ms, error) && ntimers() === 0 },
});
C.push({
    id: 'delayRun', property: 'F08', file: F + 'delay/delayRun.ts', timers: true,
    params: { ms: MS, task: PC, x: T.tok(), y: T.tok() }, keepUndef: true,
    ensures: { 'the-result-of-the-task': ({ task, result }) => gives(task, 0, result) },
    throws: { 'its-failure-or-a-bad-time': ({ ms, task, error }) => (ncalls(task) === 1 && failsAt(task, 0) && same(error, whyAt(task, 0))) || (ncalls(task) === 0 && badTime(ms, error)) },
    always: {
        'once-with-the-arguments-after-the-wait': ({ ms, task, x, y }) => (ms > 2147483647 && ncalls(task) === 0 && ntimers() === 0) || (one2(task, x, y) && setOnce(ms) && liveTimers() === 0 && (ms <= 0 || timerAt(0) < when(task, 0))),
    },
});
C.push({
    id: 'delayReturn', property: 'F08', file: F + 'delay/delayReturn.ts', timers: true, engine: { monotoneClock: true },
    params: { ms: MS, task: PC, x: T.tok(), y: T.tok() }, keepUndef: true,
    ensures: {
        'the-result-of-the-task': ({ task, result }) => gives(task, 0, result),
        'no-earlier-than-the-time-given': ({ ms }) => setOnce(ms) && liveTimers() === 0,
    },
    throws: {
        'its-failure-or-a-bad-time': ({ ms, task, error }) => (ncalls(task) === 1 && failsAt(task, 0) && same(error, whyAt(task, 0))) || (ncalls(task) === 0 && badTime(ms, error)),
        'a-failure-is-held-back-as-long': ({ ms }) => ms <= 0 || ms > 2147483647 || (nreads() === 2 && (readAt(1) - readAt(0) >= ms || (ntimers() === 2 && timerMs(1) === ms - (readAt(1) - readAt(0))))),
    },
    always: { 'once-with-the-arguments': ({ ms, task, x, y }) => (ms > 2147483647 && ncalls(task) === 0 && ntimers() === 0) || one2(task, x, y) },
});
C.push({
    id: 'timeoutOr', property: 'F08', file: F + 'timeout/timeoutOr.ts', timers: true,
    params: { ms: MS, task: PC, late: PC, x: T.tok(), y: T.tok() }, keepUndef: true,
    ensures: { 'the-result-of-one-of-the-two': ({ task, late, result }) => (ncalls(late) === 0 && gives(task, 0, result)) || (ncalls(late) === 1 && (gives(late, 0, result) || gives(task, 0, result))) },
    throws: { 'the-failure-of-one-of-the-two-or-a-bad-time': ({ ms, task, late, error }) => (failsAt(task, 0) && same(error, whyAt(task, 0))) || (ncalls(late) === 1 && failsAt(late, 0) && same(error, whyAt(late, 0))) || badTime(ms, error) },
    always: {
        'the-task-runs-once-with-the-arguments': ({ task, x, y }) => one2(task, x, y),
        'the-fallback-at-most-once-with-the-arguments-when-time-is-up': ({ late, x, y }) => ncalls(late) === 0 || (one2(late, x, y) && ntimers() === 1 && timerAt(0) < when(late, 0)),
        'one-timer-of-the-time-given': ({ ms }) => ms > 2147483647 ? ntimers() === 0 : ntimers() === 1 && timerMs(0) === max(0, ms),
        'no-timer-left-running': () => liveTimers() === 0,
    },
});
const goodTime = macro('goodTime', x => isInt(x) && x <= 2147483647);
C.push({
    id: 'timeoutMs', property: 'F08', file: F + 'timeout/timeoutMsResolve.ts',
    params: { value: T.or(T.int(), T.fp(), T.const(null), T.const(undefined), T.bool()) }, keepUndef: true,
    ensures: { 'the-number-itself-but-never-negative': ({ value, result }) => kindOf(value) === 'int' ? result === max(0, value) && result <= 2147483647 : kindOf(value) === 'double' && value === 0 && result === 0 },
    throws: { 'only-for-what-no-timer-can-wait': ({ value, error }) => errName(error) === 'TypeError' && !(kindOf(value) === 'int' && value <= 2147483647) },
});
C.push({
    id: 'timeoutMsText', property: 'F08', runMs: 1500, file: F + 'timeout/timeoutMsResolve.ts', bounded: 'random numeric and other strings',
    params: { value: { ...T.str(), gen: r => r.pick(['', ' ', '5', '-5', ' 17 ', '1e3', '0x10', '2147483647', '2147483648', '1.5', 'a', '5a', 'NaN', 'Infinity', '-0', '9007199254740993', String(r.int(5000)), String(r.int(5000) / 4)]) } },
    ensures: { 'the-number-it-spells': ({ value, result }) => goodTime(Number(value)) && Object.is(result, Math.max(0, Number(value))) },
    throws: { 'only-if-it-spells-no-time': ({ value, error }) => !(isInt(Number(value)) && Number(value) <= 2147483647) && errName(error) === 'TypeError' },
});
const eachEqually = macro('eachEqually', (a, b, r) => (a === b ? r === a : b - a >= 4503599627370496 || (ndraws() === 1 && r - a <= draw(0) * (b - a + 1) && draw(0) * (b - a + 1) < r - a + 1)));
// evenly over all of them, or (see known-findings.txt) over those strictly between
const evenly = macro('evenly', (a, b, r) => eachEqually(a, b, r) || b - a === 1 || (ndraws() === 1 && b - r >= draw(0) * (b - a - 1) && b - r < draw(0) * (b - a - 1) + 1));
const fromTo = macro('fromTo', (a, b, r) => (a <= b ? a <= r && r <= b : b <= r && r <= a));
C.push({
    id: 'evaluateRange', property: 'F08', file: F + 'timeout/constants/evaluateInt.ts',
    params: { value: T.rec({ start: T.optional(T.int()), end: T.optional(T.int()) }) },
    ensures: {
        'between-the-ends': ({ value, result }) => isInt(result) && fromTo(value.start === undefined ? 0 : value.start, value.end === undefined ? 0 : value.end, result),
        'one-draw-spread-evenly': ({ value, result }) => evenly(min(value.start === undefined ? 0 : value.start, value.end === undefined ? 0 : value.end), max(value.start === undefined ? 0 : value.start, value.end === undefined ? 0 : value.end), result),
    },
});
C.push({
    id: 'evaluateRangeEnds', property: 'F08', file: F + 'timeout/constants/evaluateInt.ts',
    params: { value: T.rec({ start: T.optional(T.int()), end: T.optional(T.int()) }) },
    ensures: {
        'both-ends-possible-and-all-equally-likely': ({ value, result }) => eachEqually(min(value.start === undefined ? 0 : value.start, value.end === undefined ? 0 : value.end), max(value.start === undefined ? 0 : value.start, value.end === undefined ? 0 : value.end), result),
    },
});
C.push({
    id: 'evaluateCallback', property: 'F08', file: F + 'timeout/constants/evaluateInt.ts',
    params: { value: T.cb({ ret: T.int() }) },
    ensures: { 'what-it-returned': ({ value, result }) => result === ret(value, 0) },
    throws: { 'only-its-own-failure': ({ value, error }) => threw(value, 0) && same(error, exc(value, 0)) },
    always: { 'asked-once-without-arguments': ({ value }) => ncalls(value) === 1 && nargs(value, 0) === 0 },
});
C.push({
    id: 'evaluateOneOf', property: 'F08', file: F + 'timeout/constants/evaluateInt.ts',
    params: { value: T.arr(T.int()) },
    ensures: { 'one-of-them-each-equally-likely': ({ value, result }) => ndraws() === 1 && exists(0, value.length, k => k <= draw(0) * value.length && draw(0) * value.length < k + 1 && result === value[k]) },
    throws: { 'only-if-there-is-none': ({ value, error }) => value.length === 0 && errName(error) === 'TypeError' },
});
C.push({
    id: 'setTimeoutMs', property: 'F08', uses: { later: F + 'timeout/setTimeout.ts' }, timers: true, keepUndef: true,
    drive: '(cb, ms, x, y) => new Promise(done => { later((...a) => { cb(...a); done(); }, ms, x, y); })',
    params: { cb: T.cb({ throws: false }), ms: MS, x: T.tok(), y: T.tok() },
    ensures: { 'once-with-the-arguments-when-the-time-is-up': ({ cb, ms, x, y }) => one2(cb, x, y) && ntimers() === 1 && timerMs(0) === max(0, ms) && timerAt(0) < when(cb, 0) && liveTimers() === 0 },
    throws: { 'only-for-a-time-no-timer-can-wait': ({ ms, cb, error }) => badTime(ms, error) && ncalls(cb) === 0 && ntimers() === 0 },
});
C.push({
    id: 'setTimeoutDefault', property: 'F08', uses: { later: F + 'timeout/setTimeout.ts' }, timers: true,
    drive: 'cb => new Promise(done => { later((...a) => { cb(...a); done(); }); })',
    params: { cb: T.cb({ throws: false }) },
    ensures: { 'at-once-if-no-time-is-given': ({ cb }) => ncalls(cb) === 1 && nargs(cb, 0) === 0 && ntimers() === 1 && timerMs(0) === 0 },
});
C.push({
    id: 'cancelNot', property: 'F08', uses: { cancelExec: F + 'control/cancelExec.ts' }, keepUndef: true,
    drive: '(task, x, y) => cancelExec(task, x, y)[0]',
    params: { task: PC, x: T.tok(), y: T.tok() },
    ensures: { 'without-a-cancellation-the-result-of-the-task': ({ task, result }) => gives(task, 0, result) },
    throws: { 'or-its-failure': ({ task, error }) => failsAt(task, 0) && same(error, whyAt(task, 0)) },
    always: { 'once-with-the-arguments': ({ task, x, y }) => one2(task, x, y) },
});
C.push({
    id: 'cancelled', property: 'F08', uses: { cancelExec: F + 'control/cancelExec.ts' }, keepUndef: true,
    drive: '(payload, x, y) => { const [p, abort] = cancelExec(new Promise(() => {}), x, y); abort(payload); return p; }',
    params: { payload: PC, x: T.tok(), y: T.tok() },
    ensures: { 'the-cancellation-settles-it': ({ payload, result }) => gives(payload, 0, result) },
    throws: { 'even-by-failing': ({ payload, error }) => failsAt(payload, 0) && same(error, whyAt(payload, 0)) },
    always: { 'the-handler-runs-once-with-the-arguments': ({ payload, x, y }) => one2(payload, x, y) },
});
C.push({
    id: 'cancelledWithValue', property: 'F08', uses: { cancelExec: F + 'control/cancelExec.ts' }, keepUndef: true,
    drive: '(payload) => { const [p, abort] = cancelExec(new Promise(() => {})); abort(payload); return p; }',
    params: { payload: T.or(T.int(), T.str(), T.const(null), T.const(undefined)) },
    ensures: { 'settles-with-the-value': ({ payload, result }) => same(payload, result) },
});
C.push({
    id: 'deferredResolve', property: 'F08', uses: { deferred: F + 'control/deferred.ts' }, keepUndef: true,
    drive: '(first, second, why) => { const d = deferred(); d.resolve(first); d.resolve(second); d.reject(why); return d.promise; }',
    params: { first: T.prom(), second: T.tok(), why: T.tok() },
    ensures: { 'the-first-settlement-counts': ({ first, result }) => !rej(first) && same(result, res(first)) },
    throws: { 'unless-it-fails-itself': ({ first, error }) => rej(first) && same(error, reason(first)) },
});
C.push({
    id: 'deferredReject', property: 'F08', uses: { deferred: F + 'control/deferred.ts' }, keepUndef: true,
    drive: '(why, other) => { const d = deferred(); d.reject(why); d.resolve(other); return d.promise; }',
    params: { why: T.tok(), other: T.tok() },
    ensures: { never: () => false },
    throws: { 'the-first-settlement-counts': ({ why, error }) => same(error, why) },
});
