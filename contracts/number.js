'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, div, mod, min, max, errName, isInt, kindOf, ndraws, draw } = require('../lib/speclib');
const Nf = 'packages/number/src/', A = 'packages/array/src/';
const C = module.exports = [];
const validNum = macro('validNum', x => kindOf(x) === 'int' || (kindOf(x) === 'double' && !Number.isNaN(x)));
const between = macro('between', (v, a, b) => (a <= v && v <= b) || (b <= v && v <= a));
// cutting [0, 1) into n equal pieces, the random number drawn fell into the k-th
const sharesOut = macro('sharesOut', (k, n) => k <= draw(0) * n && draw(0) * n < k + 1);
const anyNum = T.or(T.dbl(), T.const('1'), T.const(null), T.const(undefined));
C.push({
    id: 'inRange', property: 'N01', file: Nf + 'inRange.ts', keepUndef: true,
    params: { value: anyNum, start: anyNum, end: anyNum },
    ensures: {
        'accepts-only-numbers': ({ value, start, end }) => validNum(value) && validNum(start) && (end === undefined || validNum(end)),
        'between-the-bounds': ({ value, start, old_end, result }) => result === (old_end === undefined ? between(value, 0, start) : between(value, start, old_end)),
    },
    throws: { 'rejects-only-non-numbers': ({ value, start, end, error }) => !(validNum(value) && validNum(start) && (end === undefined || validNum(end))) && errName(error) === 'TypeError' },
});
for (const safe of [false, true]) C.push({
    id: safe ? 'rangeSafe' : 'range', property: 'N01', file: Nf + (safe ? 'rangeSafe' : 'range') + '.ts',
    assumes: ['negative zero as a bound is not considered (it behaves as zero)'],
    params: { start: T.or(T.int(), T.fp({ nz: true })), end: T.or(T.int(), T.fp({ nz: true })) },
    ensures: {
        'integers-only': ({ start, end }) => Number.isSafeInteger(start) && Number.isSafeInteger(end),
        'an-integer': ({ result }) => isInt(result),
        'inside-the-bounds': ({ start, end, result }) => between(result, start, end),
        'one-random-number-decides': () => ndraws() === 1,
        'every-integer-equally-likely': ({ start, end, result }) => start > end || end - start >= 4503599627370496 || sharesOut(result - start, end - start + 1),
    },
    throws: { 'rejects-only-non-integers': ({ start, end, error }) => !(Number.isSafeInteger(start) && Number.isSafeInteger(end)) && errName(error) === 'TypeError' },
});
C.push({
    id: 'arrayRange', property: 'N01', file: A + 'range.ts', keepUndef: true,
    params: { from: T.int({ gmax: 3000 }), to: T.int({ gmax: 3000 }), step: T.int() },
    sane: ({ from, to, step }) => Math.abs((to - from) / step) < 50000,
    ensures: {
        'direction-respected': ({ from, to, step }) => step !== 0 && (from === to || (from < to) === (step > 0)),
        'starts-at-the-first-bound': ({ from, result }) => result.length > 0 && result[0] === from,
        'evenly-spaced': ({ from, step, result }) => forall(0, result.length, k => result[k] === from + k * step),
        'never-passes-the-second-bound': ({ from, to, step, result }) => (step > 0 ? from + (result.length - 1) * step <= to : from + (result.length - 1) * step >= to),
        'stops-no-earlier': ({ from, to, step, result }) => (step > 0 ? from + result.length * step > to : from + result.length * step < to),
    },
    throws: { 'rejects-only-wrong-direction': ({ from, to, step, error }) => (errName(error) === 'TypeError' && (step === 0 || (from < to && step < 0) || (from > to && step > 0))) || (errName(error) === 'RangeError' && step !== 0 && (step > 0 ? to - from >= 4294967294 * step : to - from <= 4294967294 * step)) },
});
C.push({
    id: 'arrayRandom', property: 'N01', file: A + 'random.ts', engine: { opaque: true },
    params: { value: T.arr(T.tok()) },
    ensures: {
        'an-element-of-the-array': ({ value, result }) => (value.length === 0 ? result === undefined : exists(0, value.length, k => same(result, value[k]))),
        'every-position-equally-likely': ({ value, result }) => value.length === 0 || (ndraws() === 1 && exists(0, value.length, k => sharesOut(k, value.length) && same(result, value[k]))),
    },
});
C.push({
    id: 'toInt', property: 'N01', file: Nf + 'toInt.ts',
    params: { value: T.or(T.int(), T.fp(), T.str({ alphabet: ' 0159.-e' })) },
    ensures: {
        'an-integer': ({ result }) => Number.isInteger(result),
        'rounds-down': ({ value, result }) => (kindOf(value) === 'int' ? result === value : kindOf(value) === 'double' ? result === Math.floor(value) : true),
        'blank-text-rejected': ({ value }) => !(kindOf(value) === 'string' && value.trim() === ''),
    },
    throws: { 'numbers-rejected-only-if-not-finite': ({ value, error }) => (kindOf(value) === 'string' || !Number.isFinite(value)) && errName(error) === 'TypeError' },
});
C.push({
    id: 'toFiniteNumber', property: 'N01', file: Nf + 'toFiniteNumber.ts', keepUndef: true,
    params: { value: T.prim(), defaultValue: T.tok() },
    ensures: {
        'finite-or-default': ({ defaultValue, result }) => same(result, defaultValue) || ((kindOf(result) === 'int' || kindOf(result) === 'double') && Number.isFinite(result)),
        'finite-numbers-kept': ({ old_value, result }) => (kindOf(old_value) === 'int' || (kindOf(old_value) === 'double' && Number.isFinite(old_value)) ? same(result, old_value) : true),
    },
    throws: { 'only-for-symbols-and-bigints': ({ old_value, error }) => (kindOf(old_value) === 'symbol' || kindOf(old_value) === 'bigint') && errName(error) === 'TypeError' },
});
