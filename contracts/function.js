'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, ncalls, arg, nargs, ret, threw, exc, when, awaits, res, rej, reason, errName, isArr, isInt, kindOf, tag, min, max } = require('../lib/speclib');
const D = 'packages/function/src/';
const C = module.exports = [];
const passes = macro('passes', (f, k, args) => nargs(f, k) === args.length && forall(0, args.length, i => same(arg(f, k, i), args[i])));
const TA = T.arr(T.tok());
// ---------------------------------------------------------------- F03 wrappers around two functions
const two = (id, drive, first, fa, second, clauses, errs = {}) => C.push({
    id, property: 'F03', rawPromise: true, uses: { [id]: D + 'chain/' + id + '.ts' }, params: { b: T.cb(), t: T.cb(), ba: TA, ta: TA }, drive,
    ensures: clauses,
    throws: {
        'only-a-failure-of-the-functions': new Function('ncalls', 'threw', 'exc', 'same', `return ({ b, t, error }) => ncalls(${first}) === 1 && (threw(${first}, 0) ? ncalls(${second}) === 0 && same(error, exc(${first}, 0)) : ncalls(${second}) === 1 && threw(${second}, 0) && same(error, exc(${second}, 0)))`)(ncalls, threw, exc, same),
        ...errs,
    },
});
const once1 = ({ b, t }) => ncalls(b) === 1 && ncalls(t) === 1 && !threw(b, 0) && !threw(t, 0);
two('before', '(b, t, ba, ta) => before(b, ...ba)(t, ...ta)', 'b', 'ba', 't', {
    'each-called-once': once1, 'before-runs-first': ({ b, t }) => when(b, 0) < when(t, 0), 'before-gets-its-arguments': ({ b, ba }) => passes(b, 0, ba), 'target-gets-its-arguments': ({ t, ta }) => passes(t, 0, ta), 'returns-the-targets-result': ({ t, result }) => same(result, ret(t, 0)),
});
two('after', '(b, t, ba, ta) => after(b, ...ba)(t, ...ta)', 't', 'ta', 'b', {
    'each-called-once': once1, 'after-runs-last': ({ b, t }) => when(t, 0) < when(b, 0), 'after-gets-its-arguments': ({ b, ba }) => passes(b, 0, ba), 'target-gets-its-arguments': ({ t, ta }) => passes(t, 0, ta), 'returns-the-targets-result': ({ t, result }) => same(result, ret(t, 0)),
});
const withFirst = macro('withFirst', (f, k, v, args) => nargs(f, k) === args.length + 1 && same(arg(f, k, 0), v) && forall(0, args.length, i => same(arg(f, k, i + 1), args[i])));
two('applyBefore', '(b, t, ba, ta) => applyBefore(b)(t, ...ba)', 'b', 'ba', 't', {
    'each-called-once': once1, 'before-runs-first': ({ b, t }) => when(b, 0) < when(t, 0), 'before-gets-its-arguments': ({ b, ba }) => passes(b, 0, ba), 'target-gets-the-report': ({ b, t }) => nargs(t, 0) === 1 && same(arg(t, 0, 0), ret(b, 0)), 'returns-the-targets-result': ({ t, result }) => same(result, ret(t, 0)),
});
two('withBefore', '(b, t, ba, ta) => withBefore(b)(t, ...ba)', 'b', 'ba', 't', {
    'each-called-once': once1, 'before-runs-first': ({ b, t }) => when(b, 0) < when(t, 0), 'before-gets-its-arguments': ({ b, ba }) => passes(b, 0, ba), 'target-gets-the-report': ({ b, t }) => nargs(t, 0) === 1 && same(arg(t, 0, 0), ret(b, 0)), 'returns-the-first-result': ({ b, result }) => same(result, ret(b, 0)),
});
two('applyAfter', '(b, t, ba, ta) => applyAfter(b, ...ba)(t, ...ta)', 't', 'ta', 'b', {
    'each-called-once': once1, 'after-runs-last': ({ b, t }) => when(t, 0) < when(b, 0), 'after-gets-the-report-first': ({ b, t, ba }) => withFirst(b, 0, ret(t, 0), ba), 'target-gets-its-arguments': ({ t, ta }) => passes(t, 0, ta), 'returns-the-afters-result': ({ b, result }) => same(result, ret(b, 0)),
});
two('withAfter', '(b, t, ba, ta) => withAfter(b, ...ba)(t, ...ta)', 't', 'ta', 'b', {
    'each-called-once': once1, 'after-runs-last': ({ b, t }) => when(t, 0) < when(b, 0), 'after-gets-the-report-first': ({ b, t, ba }) => withFirst(b, 0, ret(t, 0), ba), 'target-gets-its-arguments': ({ t, ta }) => passes(t, 0, ta), 'returns-the-targets-result': ({ t, result }) => same(result, ret(t, 0)),
});
// ---------------------------------------------------------------- F02 call limits, over whole call histories
const HIST = (make, extra = '') => `(fn, a, ps, count) => { const g = ${make}; const oks = [], vals = []; for (const p of ps) { let ok = true, v; try { v = g(...p); } catch (e) { ok = false; v = e; } oks.push(ok); vals.push(v); } return [oks, vals, g]; }`;
const argsAt = macro('argsAt', (f, k, a, p) => nargs(f, k) === a.length + p.length && forall(0, a.length, i => same(arg(f, k, i), a[i])) && forall(0, p.length, i => same(arg(f, k, a.length + i), p[i])));
const outcome = macro('outcome', (f, k, ok, v) => (threw(f, k) ? ok === false && same(v, exc(f, k)) : ok === true && same(v, ret(f, k))));
C.push({
    id: 'once', property: 'F02', uses: { once: D + 'limit/once.ts' }, params: { fn: T.cb(), a: TA, ps: T.arr(TA) }, drive: HIST('once(fn, ...a)'),
    inv: [
        ({ $i, fn }) => ncalls(fn) <= $i,
        ({ $i, $b, fn }) => ($b === true ? ncalls(fn) >= 1 && !threw(fn, ncalls(fn) - 1) : ncalls(fn) === $i),
        ({ fn }) => forall(0, ncalls(fn) - 1, k => threw(fn, k)),
        ({ $b, fn }) => $b || forall(0, ncalls(fn), k => threw(fn, k)),
        ({ $v, $b, fn }) => !$b || same($v, ret(fn, ncalls(fn) - 1)),
        ({ $i, $a }) => $a.length === $i,
        ({ $i, $a, fn }) => forall(0, $i, j => (j < ncalls(fn) ? $a[j] === !threw(fn, j) : $a[j] === true)),
        ({ $i, $a, fn }) => forall(0, $i, j => (j < ncalls(fn) ? (threw(fn, j) ? same($a[j], exc(fn, j)) : same($a[j], ret(fn, j))) : same($a[j], ret(fn, ncalls(fn) - 1)))),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => nargs(fn, k) === a.length + ps[k].length),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => forall(0, a.length, i => same(arg(fn, k, i), a[i]))),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => forall(0, ps[k].length, i => same(arg(fn, k, a.length + i), ps[k][i]))),
    ],
    ensures: {
        'never-again-after-success': ({ fn }) => forall(0, ncalls(fn) - 1, k => threw(fn, k)),
        'called-when-not-yet-done': ({ fn, ps }) => ncalls(fn) <= ps.length && (ncalls(fn) === ps.length || (ncalls(fn) > 0 && !threw(fn, ncalls(fn) - 1))),
        'every-caller-gets-that-result': ({ fn, ps, result }) => result[1].length === ps.length && result[0].length === ps.length && forall(0, ps.length, j => (j < ncalls(fn) ? outcome(fn, j, result[0][j], result[1][j]) : result[0][j] === true && same(result[1][j], ret(fn, ncalls(fn) - 1)))),
        'arguments-are-bound-then-given': ({ fn, a, ps }) => forall(0, ncalls(fn), k => argsAt(fn, k, a, ps[k])),
    },
});
C.push({
    id: 'runOnlyNTimes', property: 'F02', uses: { runOnlyNTimes: D + 'limit/runOnlyNTimes.ts' }, params: { fn: T.cb(), a: TA, ps: T.arr(TA), count: T.or(T.int({ gmax: 8 }), T.fp({ nz: true })) }, drive: HIST('runOnlyNTimes(count, fn, ...a)'), assumes: ['the count −0 is not considered'],
    inv: [
        ({ $i, fn, count }) => ncalls(fn) === min($i, count),
        ({ $i, $i2, count }) => $i2 === count - $i,
        ({ $i, $a }) => $a.length === $i,
        ({ $i, $a, fn }) => forall(0, $i, j => (j < ncalls(fn) ? $a[j] === !threw(fn, j) : $a[j] === true)),
        ({ $i, $a, fn }) => forall(0, $i, j => (j < ncalls(fn) ? (threw(fn, j) ? same($a[j], exc(fn, j)) : same($a[j], ret(fn, j))) : $a[j] === undefined)),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => nargs(fn, k) === a.length + ps[k].length),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => forall(0, a.length, i => same(arg(fn, k, i), a[i]))),
        ({ fn, a, ps }) => forall(0, ncalls(fn), k => forall(0, ps[k].length, i => same(arg(fn, k, a.length + i), ps[k][i]))),
    ],
    ensures: {
        'accepts-only-counts': ({ count }) => Number.isSafeInteger(count) && count >= 0,
        'runs-exactly-the-first-n-calls': ({ fn, ps, count }) => ncalls(fn) === min(ps.length, count),
        'those-callers-get-the-outcome-later-ones-undefined': ({ fn, ps, result }) => result[1].length === ps.length && result[0].length === ps.length && forall(0, ps.length, j => (j < ncalls(fn) ? outcome(fn, j, result[0][j], result[1][j]) : result[0][j] === true && result[1][j] === undefined)),
        'arguments-are-bound-then-given': ({ fn, a, ps }) => forall(0, ncalls(fn), k => argsAt(fn, k, a, ps[k])),
    },
    throws: { 'rejects-only-non-counts': ({ count, error, fn }) => !(Number.isSafeInteger(count) && count >= 0) && errName(error) === 'TypeError' && ncalls(fn) === 0 },
});
const skipped = macro('skipped', count => max(count - 1, 0));
C.push({
    id: 'runAfterTimes', property: 'F02', uses: { runAfterTimes: D + 'limit/runAfterTimes.ts' }, params: { fn: T.cb(), a: TA, ps: T.arr(TA), count: T.or(T.int({ gmax: 8 }), T.fp({ nz: true })) }, assumes: ['the count −0 is not considered'],
    drive: '(fn, a, ps, count) => { const g = runAfterTimes(count, fn, ...a); const oks = [], vals = [], self = []; for (const p of ps) { let ok = true, v; try { v = g(...p); } catch (e) { ok = false; v = e; } oks.push(ok); vals.push(v); self.push(v === g); } return [oks, vals, self]; }',
    inv: [
        ({ $i, fn, count }) => ncalls(fn) === max(0, $i - skipped(count)),
        ({ $i, $i2, count }) => $i2 === count - $i,
        ({ $i, $a }) => $a.length === $i,
        ({ $i, $a, fn, count }) => forall(0, $i, j => (j >= skipped(count) ? $a[j] === !threw(fn, j - skipped(count)) : $a[j] === true)),
        ({ $i, $a, fn, count }) => forall(0, $i, j => j < skipped(count) || (threw(fn, j - skipped(count)) ? same($a[j], exc(fn, j - skipped(count))) : same($a[j], ret(fn, j - skipped(count))))),
        ({ $i, $a, count }) => forall(0, $i, j => j >= skipped(count) || $a[j] === true),
        ({ fn, a }) => forall(0, ncalls(fn), k => nargs(fn, k) === a.length),
        ({ fn, a }) => forall(0, ncalls(fn), k => forall(0, a.length, i => same(arg(fn, k, i), a[i]))),
    ],
    ensures: {
        'accepts-only-counts': ({ count }) => Number.isSafeInteger(count) && count >= 0,
        'runs-from-the-nth-call-on': ({ fn, ps, count }) => ncalls(fn) === max(0, ps.length - skipped(count)),
        'those-callers-get-the-outcome': ({ fn, ps, count, result }) => result[1].length === ps.length && result[0].length === ps.length && forall(skipped(count), ps.length, j => outcome(fn, j - skipped(count), result[0][j], result[1][j])),
        'earlier-callers-get-the-function-itself': ({ ps, count, result }) => forall(0, min(skipped(count), ps.length), j => result[0][j] === true && result[2][j] === true),
        'arguments-are-the-bound-ones': ({ fn, a }) => forall(0, ncalls(fn), k => passes(fn, k, a)),
    },
    throws: { 'rejects-only-non-counts': ({ count, error, fn }) => !(Number.isSafeInteger(count) && count >= 0) && errName(error) === 'TypeError' && ncalls(fn) === 0 },
});
// ---------------------------------------------------------------- F05 toggle
C.push({
    id: 'toggle', property: 'F05', uses: { toggle: D + 'select/toggle.ts' }, params: { left: T.tok(), right: T.tok(), ops: T.arr(T.int({ min: 0, max: 3 })) },
    drive: '(left, right, ops) => { const t = toggle(left, right); const outs = [], vals = []; const first = t.value; for (const op of ops) { let o; if (op === 1) o = t.toggle(); else if (op === 2) o = t.setLeft(); else if (op === 3) o = t.setRight(); outs.push(o); vals.push(t.value); } return [outs, vals, first]; }',
    inv: [
        ({ $i, $a }) => $a.length === $i,
        ({ $i, $a, ops }) => forall(0, $i, j => ops[j] === 1 || $a[j] === undefined),
        ({ $i, $a, $a2, ops }) => forall(0, $i, j => ops[j] !== 1 || same($a[j], $a2[j])),
        ({ $i, $a, ops, left }) => forall(0, $i, j => ops[j] !== 2 || same($a[j], left)),
        ({ $i, $a, ops, right }) => forall(0, $i, j => ops[j] !== 3 || same($a[j], right)),
        ({ $i, $a, $v, left }) => ($i === 0 ? same($v, left) : same($v, $a[$i - 1])),
        ({ $i, $a, ops, left, right }) => forall(0, $i, j => ops[j] !== 1 || same($a[j], same(j === 0 ? left : $a[j - 1], left) ? right : left)),
        ({ $i, $a, ops, left }) => forall(0, $i, j => ops[j] !== 0 || same($a[j], j === 0 ? left : $a[j - 1])),
    ],
    ensures: {
        'starts-at-the-default': ({ result, left }) => same(result[2], left),
        'toggle-flips': ({ ops, result, left, right }) => forall(0, ops.length, j => ops[j] !== 1 || same(result[1][j], same(j === 0 ? left : result[1][j - 1], left) ? right : left)),
        'toggle-returns-the-new-value': ({ ops, result }) => forall(0, ops.length, j => ops[j] !== 1 || same(result[0][j], result[1][j])),
        'set-left-and-right': ({ ops, result, left, right }) => forall(0, ops.length, j => (ops[j] !== 2 || same(result[1][j], left)) && (ops[j] !== 3 || same(result[1][j], right))),
        'reading-changes-nothing': ({ ops, result, left }) => forall(0, ops.length, j => ops[j] !== 0 || same(result[1][j], j === 0 ? left : result[1][j - 1])),
    },
});
// compose: a pipeline, whatever the functions do
C.push({
    id: 'compose', property: 'F03', rawPromise: true, uses: { compose: D + 'chain/compose.ts' }, params: { fns: T.arr(T.ofn()), value: T.tok() }, drive: '(fns, value) => compose(...fns)(value)',
    inv: [
        ({ $i }) => ocalls() === $i,
        ({ $i }) => forall(0, $i, k => !othrew(k)),
        ({ $i, fns }) => forall(0, $i, k => same(ocallee(k), fns[k])),
        ({ $i }) => forall(0, $i, k => onargs(k) === 1),
        ({ $i, value }) => forall(0, $i, k => k === 0 ? same(oarg(k, 0), value) : same(oarg(k, 0), oret(k - 1))),
        ({ $i, $v, value }) => same($v, $i === 0 ? value : oret($i - 1)),
    ],
    ensures: {
        'every-function-once-in-order': ({ fns }) => ocalls() === fns.length && forall(0, fns.length, k => same(ocallee(k), fns[k])),
        'each-gets-the-previous-result-only': ({ fns, value }) => forall(0, fns.length, k => onargs(k) === 1 && same(oarg(k, 0), k === 0 ? value : oret(k - 1))),
        'returns-the-last-result': ({ fns, value, result }) => same(result, fns.length === 0 ? value : oret(fns.length - 1)),
        'no-swallowed-exception': () => forall(0, ocalls(), k => !othrew(k)),
    },
    throws: { 'exception-is-a-functions': ({ error }) => ocalls() > 0 && othrew(ocalls() - 1) && same(error, oexc(ocalls() - 1)) && forall(0, ocalls() - 1, k => !othrew(k)) },
});
const { ocalls, ocallee, onargs, oarg, oret, othrew, oexc } = require('../lib/speclib');
C.push({
    id: 'currying', property: 'F03', rawPromise: true, uses: { currying: D + 'currying.ts' }, params: { fn: T.cb({ arity: 'any' }), a: TA, x: T.tok() }, keepUndef: true,
    drive: '(fn, a, x) => { const c = currying(fn); const first = c(...a); if (a.length >= fn.length) return [0, first]; const second = first(x); return [a.length + 1 >= fn.length ? 1 : 2, second]; }',
    ensures: {
        'calls-once-enough-are-given': ({ fn, a, x, result }) => (result[0] === 0 ? ncalls(fn) === 1 && passes(fn, 0, a) && same(result[1], ret(fn, 0)) : result[0] === 1 ? ncalls(fn) === 1 && nargs(fn, 0) === a.length + 1 && forall(0, a.length, i => same(arg(fn, 0, i), a[i])) && same(arg(fn, 0, a.length), x) && same(result[1], ret(fn, 0)) : true),
        'waits-otherwise': ({ fn, result }) => result[0] !== 2 || (ncalls(fn) === 0 && kindOf(result[1]) === 'function'),
    },
    throws: { 'exception-is-the-functions': ({ fn, error }) => ncalls(fn) === 1 && threw(fn, 0) && same(error, exc(fn, 0)) },
});
// ---------------------------------------------------------------- F07 promise wrappers
const PC = T.cb({ ret: T.prom() });
const calledWith = macro('calledWith', (f, a) => ncalls(f) === 1 && passes(f, 0, a));
const fails = macro('fails', f => threw(f, 0) || rej(ret(f, 0)));
const why = macro('why', f => (threw(f, 0) ? exc(f, 0) : reason(ret(f, 0))));
const failure = ({ task, error }) => ncalls(task) === 1 && fails(task) && same(error, why(task));
const P7 = (id, path, params, drive, ensures, throws, extra = {}) => C.push({ id, property: 'F07', uses: { f: D + path + '.ts' }, params, drive, ensures, throws, ...extra });
P7('noCatch', 'catch/noCatch', { task: PC, a: TA }, '(task, a) => f(task, ...a)', { 'task-runs-once': ({ task, a }) => calledWith(task, a), 'failure-becomes-undefined-otherwise-the-result': ({ task, result }) => (fails(task) ? result === undefined : same(result, res(ret(task, 0)))) }, { 'never-rejects': () => false });
P7('noCatchPromise', 'catch/noCatch', { p: T.prom() }, '(p) => f(p)', { 'failure-becomes-undefined-otherwise-the-result': ({ p, result }) => kindOf(p) === 'function' || (rej(p) ? result === undefined : same(result, res(p))) }, { 'never-rejects': ({ p }) => false });
P7('tryCatch', 'catch/tryCatch', { task: PC, a: TA }, '(task, a) => f(task, ...a)', { 'task-runs-once': ({ task, a }) => calledWith(task, a), 'result-of-the-task': ({ task, result }) => !fails(task) && same(result, res(ret(task, 0))) }, { 'rejects-with-the-failure-of-the-task': failure });
P7('executeToPromise', 'promise/executeToPromise', { task: PC, a: TA }, '(task, a) => f(task, a)', { 'task-runs-once': ({ task, a }) => calledWith(task, a), 'result-of-the-task': ({ task, result }) => !fails(task) && same(result, res(ret(task, 0))) }, { 'rejects-with-the-failure-of-the-task': failure });
P7('executeToPromiseValue', 'promise/executeToPromise', { p: T.prom() }, '(p) => f(p)', { 'value-as-awaited': ({ p, result }) => kindOf(p) === 'function' || (!rej(p) && same(result, res(p))) }, { 'rejects-with-its-reason': ({ p, error }) => kindOf(p) === 'function' || (rej(p) && same(error, reason(p))) });
P7('toPromise', 'promise/toPromise', { task: PC, a: TA }, '(task, a) => f(task, a)', { 'task-runs-once': ({ task, a }) => calledWith(task, a), 'result-of-the-task': ({ task, result }) => !fails(task) && same(result, res(ret(task, 0))) }, { 'rejects-with-the-failure-of-the-task': failure });
P7('toPromiseValue', 'promise/toPromise', { p: T.prom() }, 'async (p) => await f(p)', { 'value-as-awaited': ({ p, result }) => kindOf(p) === 'function' || (!rej(p) && same(result, res(p))) }, { 'rejects-with-its-reason': ({ p, error }) => kindOf(p) === 'function' || (rej(p) && same(error, reason(p))) });
P7('padding', 'control/padding', { task: PC, a: TA }, '(task, a) => f(task, ...a)', { 'task-runs-once': ({ task, a }) => calledWith(task, a), 'result-or-error-slot': ({ task, result }) => (fails(task) ? result[0] === null && same(result[1], why(task)) : same(result[0], res(ret(task, 0))) && result[1] === null) }, { 'never-rejects': () => false });
const FB = T.cb({ ret: T.prom() });
P7('ifThrow', 'catch/ifThrow', { task: PC, fb: FB, a: TA }, '(task, fb, a) => f(task, fb, ...a)', {
    'task-runs-once': ({ task, a }) => calledWith(task, a),
    'fallback-runs-only-after-a-failure': ({ task, fb }) => ncalls(fb) === (fails(task) ? 1 : 0),
    'fallback-gets-the-error-then-the-arguments': ({ task, fb, a }) => !fails(task) || withFirst(fb, 0, why(task), a),
    'result': ({ task, fb, result }) => (fails(task) ? !fails(fb) && same(result, res(ret(fb, 0))) : same(result, res(ret(task, 0)))),
}, { 'rejects-only-when-both-fail': ({ task, fb, error }) => ncalls(task) === 1 && fails(task) && ncalls(fb) === 1 && fails(fb) && same(error, why(fb)) });
P7('ifThrowValue', 'catch/ifThrow', { task: PC, v: T.prom(), a: TA }, '(task, v, a) => f(task, v, ...a)', {
    'task-runs-once': ({ task, a }) => calledWith(task, a),
    'result': ({ task, v, result }) => kindOf(v) === 'function' || (fails(task) ? !rej(v) && same(result, res(v)) : same(result, res(ret(task, 0)))),
}, { 'rejects-only-when-both-fail': ({ task, v, error }) => kindOf(v) === 'function' || (ncalls(task) === 1 && fails(task) && rej(v) && same(error, reason(v))) });
P7('select', 'select/select', { cond: T.cb({ ret: T.prom({ bools: true }) }), yes: T.cb({ ret: T.prom() }), no: T.cb({ ret: T.prom() }), a: TA }, '(cond, yes, no, a) => f(cond, yes, no, ...a)', {
    'condition-runs-once': ({ cond }) => ncalls(cond) === 1 && !fails(cond),
    'exactly-one-branch': ({ cond, yes, no }) => (res(ret(cond, 0)) ? ncalls(yes) === 1 && ncalls(no) === 0 : ncalls(yes) === 0 && ncalls(no) === 1),
    'branch-gets-the-arguments': ({ yes, no, a }) => (ncalls(yes) === 0 || passes(yes, 0, a)) && (ncalls(no) === 0 || passes(no, 0, a)),
    'result-of-the-branch': ({ yes, no, result }) => (ncalls(yes) === 1 ? !fails(yes) && same(result, res(ret(yes, 0))) : !fails(no) && same(result, res(ret(no, 0)))),
}, { 'rejects-with-the-failure': ({ cond, yes, no, error }) => (fails(cond) ? ncalls(yes) === 0 && ncalls(no) === 0 && same(error, why(cond)) : ncalls(yes) === 1 ? ncalls(no) === 0 && fails(yes) && same(error, why(yes)) : ncalls(no) === 1 && fails(no) && same(error, why(no))) });
// ---------------------------------------------------------------- F01 memoization against a model cache
// M is the abstract cache: what a caller has to see, whatever the history of calls, deletions and clock readings
C.push({
    id: 'memoizeWith', property: 'F01', uses: { memoizeWith: D + 'cache/memoizeWith.ts' },
    params: { func: T.cb({ ret: T.tok() }), harsher: T.cb({ ret: T.tok(), throws: false, gret: T.prim() }), timeoutMs: T.or(T.const(undefined), T.int({ min: 0, max: 2147483647 })), ops: T.arr(T.int({ min: 0, max: 3 }), { maxLen: 24 }), as: T.arr(T.tok()), times: T.arr(T.int({ min: 0, max: 8640000000000000 })) },
    requires: [({ ops, as, times }) => as.length === ops.length && times.length === ops.length],
    drive: `(func, harsher, timeoutMs, ops, as, times) => {
        const M = new Map(), good = [];
        let calls = 0, key, val, threw = false, given, extra = 0, i = 0;
        const g = memoizeWith((x, ...rest) => { calls++; given = x; extra = rest.length; threw = true; val = func(x, ...rest); threw = false; return val; }, (x, ...rest) => { key = harsher(x, ...rest); return key; }, timeoutMs);
        for (const op of ops) {
            const x = as[i], now = times[i];
            setClock(now);
            calls = 0; threw = false;
            let ok = true;
            if (op === 0) { g.clear(); M.clear(); }
            else if (op === 1) { g.delete(x); M.delete(key); }
            else {
                let r, failed = false;
                try { r = g(x); } catch (e) { failed = true; }
                const e = M.get(key);
                if (M.has(key) && (timeoutMs === undefined || now <= e.expiration)) ok = calls === 0 && !failed && Object.is(r, e.value);
                else {
                    ok = calls === 1 && Object.is(given, x) && extra === 0 && failed === threw && (failed || Object.is(r, val));
                    if (!threw) M.set(key, { value: val, expiration: timeoutMs === undefined ? NaN : now + timeoutMs });
                }
            }
            good.push(ok);
            i++;
        }
        return good;
    }`,
    inv: [({ $i, $a }) => $a.length === $i, ({ $i, $a }) => forall(0, $i, j => $a[j] === true)],
    gen: (r, c) => { const n = r.int(14), ks = [undefined, 0, -0, NaN, 'a', 'b'].slice(r.int(4)); const ops = [], as = [], times = []; let t = r.int(50); for (let i = 0; i < n; i++) { ops.push(r.pick([0, 1, 2, 3, 2, 3, 2])); as.push(r.int(3)); t += r.pick([0, 0, 1, 2, 5]); times.push(t); } return [T.cb({ ret: T.tok() }).gen(r, c), T.cb({ throws: false, ret: T.oneOf(...ks) }).gen(r, c), r.pick([undefined, 0, 1, 2, 5]), ops, as, times]; },
    ensures: { 'like-the-model-cache-at-every-step': ({ ops, result }) => result.length === ops.length && forall(0, ops.length, j => result[j] === true) },
});
C.push({
    id: 'bind', property: 'F03', uses: { bind: 'packages/function/src/bind.ts' }, keepUndef: true,
    drive: '(owner, x, y, z) => bind(function (a, b) { return [this, a, b, arguments.length]; }, owner)(x, y, z)',
    params: { owner: T.obj(), x: T.tok(), y: T.tok(), z: T.tok() },
    ensures: { 'the-object-and-all-arguments-reach-the-method': ({ owner, x, y, result }) => same(result[0], owner) && same(result[1], x) && same(result[2], y) && result[3] === 3 },
});
