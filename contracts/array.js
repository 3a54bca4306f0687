'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, div, mod, min, max, ncalls, arg, nargs, ret, threw, exc, when, awaits, res, rej, reason, errName, isArr, isInt } = require('../lib/speclib');
const A = 'packages/array/src/';
const validStep = macro('validStep', s => Number.isInteger(s) && s > 0);
const C = module.exports = [];

C.push({
    id: 'splitByStep', property: 'A01', file: A + 'splitByStep.ts',
    params: { value: T.arr(T.tok()), step: T.or(T.int({ gmax: 12 }), T.fp()) },
    returns: T.arr(T.arr(T.tok())),
    inv: [
        ({ $i, $a, step }) => $i === $a.length * step,
        ({ $i, step, value }) => $i - step < value.length,
        ({ $a, step, value }) => forall(0, $a.length, j => $a[j].length === min(step, value.length - j * step)),
        ({ $a, step, value }) => forall(0, $a.length, j => forall(0, $a[j].length, i => same($a[j][i], value[j * step + i]))),
    ],
    ensures: {
        'accepts-only-positive-step': ({ step }) => validStep(step),
        'chunk-count': ({ step, value, result }) => !isInt(step) || step >= value.length ? result.length === 1 : (result.length - 1) * step < value.length && result.length * step >= value.length,
        'chunk-sizes': ({ step, value, result }) => !isInt(step) ? result[0].length === value.length : forall(0, result.length, j => result[j].length === min(step, value.length - j * step)),
        'chunk-contents': ({ step, value, result }) => !isInt(step) ? forall(0, value.length, i => same(result[0][i], value[i])) : forall(0, result.length, j => forall(0, result[j].length, i => same(result[j][i], value[j * step + i]))),
    },
    throws: { 'rejects-only-bad-step': ({ step, error }) => !validStep(step) && errName(error) === 'TypeError' },
});

const chunkStart = macro('chunkStart', (j, n, length, pad) => {
    const f = div(n, length), d = mod(n, length);
    if (length >= n || d === 0 || pad === undefined) return j * (length >= n ? n : f);
    if (pad === 'start') return j < d ? j * (f + 1) : d * (f + 1) + (j - d) * f;
    return j < length - d ? j * f : (length - d) * f + (j - (length - d)) * (f + 1);
});
C.push({
    id: 'splitChunk', property: 'A01', file: A + 'splitChunk.ts', calls: ['splitByStep'],
    params: { value: T.arr(T.tok()), length: T.int({ gmax: 12 }), padPosition: T.oneOf(undefined, 'start', 'end', 'middle') },
    ensures: {
        'accepts-only-positive-length': ({ length }) => length > 0,
        'chunk-count': ({ value, length, padPosition, result }) => {
            const n = value.length;
            if (length >= n) return result.length === 1;
            if (padPosition === undefined && mod(n, length) !== 0) return result.length >= length && (result.length - 1) * div(n, length) < n && result.length * div(n, length) >= n;
            return result.length === length;
        },
        'chunk-bounds': ({ value, length, padPosition, result }) => forall(0, result.length, j => result[j].length === min(value.length, chunkStart(j + 1, value.length, length, padPosition)) - chunkStart(j, value.length, length, padPosition)),
        'chunk-contents': ({ value, length, padPosition, result }) => forall(0, result.length, j => forall(0, result[j].length, i => same(result[j][i], value[chunkStart(j, value.length, length, padPosition) + i]))),
    },
    throws: { 'rejects-only-bad-arguments': ({ value, length, padPosition, error }) => (length <= 0 || (padPosition === 'middle' && length < value.length && mod(value.length, length) !== 0)) && errName(error) === 'TypeError' },
});

// ---------------------------------------------------------------- A02 iteration family
const E = A + 'each/', M = A + 'map/';
const FAM = 'the callback does not change the length or elements of the array while it is being walked';
const at = macro('at', (right, n, k) => (right ? n - 1 - k : k));
const visits = right => right
    ? { inv: ({ value, callback }) => forall(0, ncalls(callback), k => same(arg(callback, k, 0), value[value.length - 1 - k]) && same(arg(callback, k, 1), value.length - 1 - k) && same(arg(callback, k, 2), value)) }
    : { inv: ({ value, callback }) => forall(0, ncalls(callback), k => same(arg(callback, k, 0), value[k]) && same(arg(callback, k, 1), k) && same(arg(callback, k, 2), value)) };
const noThrowBefore = ({ callback }) => forall(0, ncalls(callback), k => !threw(callback, k));
const goOn = ({ callback }) => forall(0, ncalls(callback), k => ret(callback, k) !== true);
const goOnA = ({ callback }) => forall(0, ncalls(callback), k => res(ret(callback, k)) !== true && !rej(ret(callback, k)));
const okA = ({ callback }) => forall(0, ncalls(callback), k => !rej(ret(callback, k)));
const inOrder = ({ callback }) => forall(0, ncalls(callback), k => awaits(callback, k) === k);
const awaited = ({ callback }) => nawait() <= ncalls(callback) && forall(0, nawait(), k => same(awv(k), ret(callback, k)));
const atOnce = ({ callback }) => forall(0, ncalls(callback), k => awaits(callback, k) === 0);
let awv, nawait;
// concrete reading of the two scheduling clauses
const observeSeq = { 'next-callback-waits-for-previous': ({ callback, state }) => state.ok };
for (const right of [false, true]) {
    const v = visits(right).inv;
    const idx = right ? [({ $i, value, callback }) => $i === value.length - ncalls(callback), ({ $i, value, callback }) => $i === value.length - 1 - ncalls(callback)] : [];
    const common = [...idx, v, noThrowBefore];
    C.push({
        id: right ? 'eachRight' : 'each', property: 'A02', file: E + (right ? 'eachRight' : 'each') + '.ts',
        params: { value: T.arr(T.tok()), callback: T.cb() }, assumes: [FAM],
        inv: [...common, goOn],
        ensures: {
            'visits-in-order-once': v,
            'stops-only-at-true': ({ value, callback, result }) => ncalls(callback) === value.length || (ncalls(callback) < value.length && ncalls(callback) > 0 && ret(callback, ncalls(callback) - 1) === true),
            'goes-on-otherwise': ({ callback }) => forall(0, ncalls(callback) - 1, k => ret(callback, k) !== true),
            'no-swallowed-exception': noThrowBefore,
            'returns-nothing': ({ result }) => result === undefined,
        },
        throws: { 'exception-is-the-callbacks': ({ callback, error }) => ncalls(callback) > 0 && threw(callback, ncalls(callback) - 1) && same(error, exc(callback, ncalls(callback) - 1)), 'visits-in-order-once-2': v },
    });
    C.push({
        id: right ? 'eachRightAsync' : 'eachAsync', property: 'A02', file: E + (right ? 'eachRightAsync' : 'eachAsync') + '.ts',
        params: { value: T.arr(T.tok()), callback: T.cb({ ret: T.prom({ bools: true }) }) }, assumes: [FAM],
        inv: [...common, goOnA, inOrder, awaited, ({ callback }) => nawait() === ncalls(callback)],
        ensures: {
            'visits-in-order-once': v,
            'stops-only-at-true': ({ value, callback }) => ncalls(callback) === value.length || (ncalls(callback) < value.length && ncalls(callback) > 0 && res(ret(callback, ncalls(callback) - 1)) === true),
            'goes-on-otherwise': ({ callback }) => forall(0, ncalls(callback) - 1, k => res(ret(callback, k)) !== true),
            'no-swallowed-failure': ({ callback }) => forall(0, ncalls(callback), k => !threw(callback, k) && !rej(ret(callback, k))),
            'returns-nothing': ({ result }) => result === undefined,
        },
        alwaysProves: { 'next-callback-waits-for-previous': inOrder, 'waits-on-the-callbacks-result': awaited },
        observeAlways: { 'next-callback-waits-for-previous': ({ callback }) => settledBefore(callback) },
        throws: {
            'failure-is-the-callbacks': ({ callback, error }) => ncalls(callback) > 0 && (threw(callback, ncalls(callback) - 1) ? same(error, exc(callback, ncalls(callback) - 1)) : rej(ret(callback, ncalls(callback) - 1)) && same(error, reason(ret(callback, ncalls(callback) - 1)))),
            'visits-in-order-once-2': v,
        },
    });
    C.push({
        id: right ? 'eachRightParallel' : 'eachParallel', property: 'A02', file: E + (right ? 'eachRightParallel' : 'eachParallel') + '.ts',
        params: { value: T.arr(T.tok()), callback: T.cb({ ret: T.prom() }) }, assumes: [FAM],
        inv: [...common, atOnce, () => nawait() === 0, ({ $a, callback }) => $a.length === ncalls(callback), ({ $a, callback }) => forall(0, ncalls(callback), k => same($a[k], ret(callback, k)))],
        ensures: {
            'visits-in-order-once': v,
            'visits-everything': ({ value, callback }) => ncalls(callback) === value.length,
            'no-swallowed-failure': ({ callback }) => forall(0, ncalls(callback), k => !threw(callback, k) && !rej(ret(callback, k))),
            'returns-nothing': ({ result }) => result === undefined,
        },
        alwaysProves: { 'starts-all-before-waiting': atOnce },
        observeAlways: { 'starts-all-before-waiting': ({ callback }) => startedTogether(callback) },
        throws: {
            'failure-is-a-callbacks': ({ callback, error }) => exists(0, ncalls(callback), k => (threw(callback, k) && same(error, exc(callback, k))) || (!threw(callback, k) && rej(ret(callback, k)) && same(error, reason(ret(callback, k))))),
            'visits-in-order-once-2': v,
        },
    });
    if (right) C.push({
        id: 'mapRight', property: 'A02', file: M + 'mapRight.ts',
        params: { value: T.arr(T.tok()), callback: T.cb() }, assumes: [FAM],
        inv: [...common, ({ $a, callback }) => $a.length === ncalls(callback), ({ $a, callback }) => forall(0, ncalls(callback), k => same($a[k], ret(callback, k)))],
        ensures: {
            'visits-in-order-once': v, 'visits-everything': ({ value, callback }) => ncalls(callback) === value.length,
            'no-swallowed-exception': noThrowBefore,
            'results-aligned': ({ value, callback, result }) => result.length === value.length && forall(0, value.length, k => same(result[k], ret(callback, k))),
        },
        throws: { 'exception-is-the-callbacks': ({ callback, error }) => ncalls(callback) > 0 && threw(callback, ncalls(callback) - 1) && same(error, exc(callback, ncalls(callback) - 1)), 'visits-in-order-once-2': v },
    });
    C.push({
        id: right ? 'mapRightAsync' : 'mapAsync', property: 'A02', file: M + (right ? 'mapRightAsync' : 'mapAsync') + '.ts',
        params: { value: T.arr(T.tok()), callback: T.cb({ ret: T.prom() }) }, assumes: [FAM],
        inv: [...common, okA, inOrder, awaited, ({ callback }) => nawait() === ncalls(callback), ({ $a, callback }) => $a.length === ncalls(callback), ({ $a, callback }) => forall(0, ncalls(callback), k => same($a[k], res(ret(callback, k))))],
        ensures: {
            'visits-in-order-once': v, 'visits-everything': ({ value, callback }) => ncalls(callback) === value.length,
            'no-swallowed-failure': ({ callback }) => forall(0, ncalls(callback), k => !threw(callback, k) && !rej(ret(callback, k))),
            'results-aligned': ({ value, callback, result }) => result.length === value.length && forall(0, value.length, k => same(result[k], res(ret(callback, k)))),
        },
        alwaysProves: { 'next-callback-waits-for-previous': inOrder, 'waits-on-the-callbacks-result': awaited },
        observeAlways: { 'next-callback-waits-for-previous': ({ callback }) => settledBefore(callback) },
        throws: {
            'failure-is-the-callbacks': ({ callback, error }) => ncalls(callback) > 0 && (threw(callback, ncalls(callback) - 1) ? same(error, exc(callback, ncalls(callback) - 1)) : rej(ret(callback, ncalls(callback) - 1)) && same(error, reason(ret(callback, ncalls(callback) - 1)))),
            'visits-in-order-once-2': v,
        },
    });
    C.push({
        id: right ? 'mapRightParallel' : 'mapParallel', property: 'A02', file: M + (right ? 'mapRightParallel' : 'mapParallel') + '.ts',
        params: { value: T.arr(T.tok()), callback: T.cb({ ret: T.prom() }) }, assumes: [FAM],
        inv: [...common, atOnce, () => nawait() === 0, ({ $a, callback }) => $a.length === ncalls(callback), ({ $a, callback }) => forall(0, ncalls(callback), k => same($a[k], ret(callback, k)))],
        ensures: {
            'visits-in-order-once': v, 'visits-everything': ({ value, callback }) => ncalls(callback) === value.length,
            'no-swallowed-failure': ({ callback }) => forall(0, ncalls(callback), k => !threw(callback, k) && !rej(ret(callback, k))),
            'results-aligned': ({ value, callback, result }) => result.length === value.length && forall(0, value.length, k => same(result[k], res(ret(callback, k)))),
        },
        alwaysProves: { 'starts-all-before-waiting': atOnce },
        observeAlways: { 'starts-all-before-waiting': ({ callback }) => startedTogether(callback) },
        throws: {
            'failure-is-a-callbacks': ({ callback, error }) => exists(0, ncalls(callback), k => (threw(callback, k) && same(error, exc(callback, k))) || (!threw(callback, k) && rej(ret(callback, k)) && same(error, reason(ret(callback, k))))),
            'visits-in-order-once-2': v,
        },
    });
}
const { settledBefore, startedTogether } = require('../lib/observe');

// ---------------------------------------------------------------- A03 rearrangement
const idArr = r => { const n = r.bool(0.7) ? r.int(7) : r.int(30); return Array.from({ length: n }, (_, i) => i); };
C.push({
    id: 'shuffleValues', property: 'A03', file: A + 'shuffle.ts', bounded: 'arrays of arbitrary values at run time; the contract of shuffle covers them through its parametricity', runMs: 2500, runMax: 4000,
    params: { value: T.arr(T.tok(), { dup: 0.4 }) },
    ensures: { 'same-multiset': ({ value, result }) => { const count = (a, x) => a.filter(y => Object.is(x, y)).length; return result.length === value.length && value.every(x => count(value, x) === count(result, x)); } },
});
C.push({
    id: 'shuffle', property: 'A03', file: A + 'shuffle.ts', engine: { opaque: true },
    params: { value: { ...T.arr(T.tok()), gen: idArr } },
    assumes: ['parametricity: the body never inspects an element (checked by the generator), so what it does to the array 0..n-1 it does to every array of length n'],
    requires: ({ value }) => forall(0, value.length, k => asInt(value[k]) === k && isInt(value[k])),
    inv: [
        ({ $a, value }) => $a.length === value.length,
        ({ $i, value }) => $i <= value.length,
        ({ $a }) => forall(0, $a.length, k => isInt($a[k]) && 0 <= asInt($a[k]) && asInt($a[k]) < $a.length),
        ({ $a }) => forall(0, $a.length, k => forall(0, $a.length, j => k === j || asInt($a[k]) !== asInt($a[j]))),
    ],
    ensures: {
        'same-length': ({ value, result }) => result.length === value.length,
        'only-elements-of-the-input': ({ value, result }) => forall(0, result.length, k => isInt(result[k]) && 0 <= asInt(result[k]) && asInt(result[k]) < value.length),
        'no-element-twice': ({ result }) => forall(0, result.length, k => forall(0, result.length, j => k === j || asInt(result[k]) !== asInt(result[j]))),
    },
});
const rel = macro('rel', (i, n) => (i < 0 ? n + i : i));
const inside = macro('inside', (i, n) => 0 <= rel(i, n) && rel(i, n) < n);
const without = macro('without', (a, s, k) => (k < s ? a[k] : a[k + 1]));
C.push({
    id: 'move', property: 'A03', file: A + 'move.ts', modifies: ['array'],
    params: { array: T.arr(T.tok()), from: T.int({ gmax: 12 }), to: T.int({ gmax: 12 }) },
    ensures: {
        'accepts-only-positions-inside': ({ old_array, from, to }) => inside(from, old_array.length) && inside(to, old_array.length),
        'same-length': ({ array, old_array }) => array.length === old_array.length,
        'moved-element': ({ array, old_array, from, to }) => same(array[rel(to, old_array.length)], old_array[rel(from, old_array.length)]),
        'others-keep-their-order': ({ array, old_array, from, to }) => {
            const n = old_array.length, s = rel(from, n), e = rel(to, n);
            return forall(0, n, k => k === e ? true : k < e ? same(array[k], without(old_array, s, k)) : same(array[k], without(old_array, s, k - 1)));
        },
        'returns-the-array': ({ array, result }) => same(result, array),
    },
    throws: {
        'rejects-only-positions-outside': ({ array, from, to, error }) => !(inside(from, array.length) && inside(to, array.length)) && errName(error) === 'RangeError',
        'untouched-when-rejected': ({ array, old_array }) => array.length === old_array.length && forall(0, array.length, k => same(array[k], old_array[k])),
    },
});
// ---------------------------------------------------------------- A04 queries
for (const max of [true, false]) {
    const better = max ? macro('longer', (a, b) => a > b) : macro('shorter', (a, b) => a < b);
    const inv = max ? [({ $i, lines }) => $i < lines.length, ({ $i, $i2, lines }) => forall(0, $i2, k => lines[k].length <= lines[$i].length), ({ $i, lines }) => forall(0, $i, k => lines[k].length < lines[$i].length), ({ $i, $i2, lines }) => $i2 === lines[$i].length]
        : [({ $i, lines }) => $i < lines.length, ({ $i, $i2, lines }) => forall(0, $i2, k => lines[k].length >= lines[$i].length), ({ $i, lines }) => forall(0, $i, k => lines[k].length > lines[$i].length), ({ $i, $i2, lines }) => $i2 === lines[$i].length];
    C.push({
        id: max ? 'maxLengthIndex' : 'minLengthIndex', property: 'A04', file: A + (max ? 'maxLengthIndex' : 'minLengthIndex') + '.ts',
        params: { lines: T.arr(T.str()) }, inv,
        ensures: {
            'nothing-only-for-empty': ({ lines, result }) => iff(result === null, lines.length === 0),
            'an-index': ({ lines, result }) => result === null || (0 <= result && result < lines.length),
            'extremal': max ? ({ lines, result }) => result === null || forall(0, lines.length, k => lines[k].length <= lines[result].length) : ({ lines, result }) => result === null || forall(0, lines.length, k => lines[k].length >= lines[result].length),
            'first-such': max ? ({ lines, result }) => result === null || forall(0, result, k => lines[k].length < lines[result].length) : ({ lines, result }) => result === null || forall(0, result, k => lines[k].length > lines[result].length),
        },
    });
}
const sz = macro('sz', (a, b) => same(a, b) || (a === b));
C.push({
    id: 'isUnique', property: 'A04', file: A + 'isUnique.ts',
    params: { array: T.arr(T.tok()) },
    gen: (r, c) => { if (r.bool(0.4)) return [T.arr(T.tok()).gen(r, c)]; const n = r.pick([2, 5, 20, 40, 300]) + r.int(3), a = Array.from({ length: n }, (_, i) => 'u' + i), x = r.pick([NaN, 0, -0, null, undefined, '', 'u', {}, false]); for (let k = r.int(3); k > 0; k--) a[r.bool(0.5) ? n - 1 - r.int(3) % n : r.int(n)] = x; return [a]; },
    inv: [
        ({ $i, array }) => forall(0, $i, k => forall(0, k, j => !sz(array[j], array[k]))),
        ({ $i, $e, array }) => forall(0, $i, k => has($e, array[k])),
        ({ $i, $e, array }) => forallVal(v => implies(has($e, v), exists(0, $i, k => same(nkey(array[k]), v)))),
    ],
    ensures: {
        'true-only-if-no-two-equal': ({ array, result }) => result === false || forall(0, array.length, k => forall(0, k, j => !sz(array[j], array[k]))),
        'false-only-if-two-equal': ({ array, result }) => result === true || exists(0, array.length, k => exists(0, k, j => sz(array[j], array[k]))),
        'answers-a-boolean': ({ result }) => result === true || result === false,
    },
});
