'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, div, mod, min, max, errName, isInt, kindOf, code, sub, concat, matches, isGlobal } = require('../lib/speclib');
const Sf = 'packages/string/src/';
const C = module.exports = [];
const ustr = () => T.str();
const isHi = macro('isHi', c => c >= 55296 && c <= 56319);
const isLo = macro('isLo', c => c >= 56320 && c <= 57343);
// the code point that starts at index i
const cpAt = macro('cpAt', (s, i) => (isHi(code(s, i)) && i + 1 < s.length && isLo(code(s, i + 1)) ? (code(s, i) - 55296) * 1024 + (code(s, i + 1) - 56320) + 65536 : code(s, i)));
const paired = macro('paired', (s, k) => isLo(code(s, k)) && k > 0 && isHi(code(s, k - 1)));
const opens = macro('opens', (s, k) => isHi(code(s, k)) && k + 1 < s.length && isLo(code(s, k + 1)));
// bytes contributed by code unit k in UTF-8 (an unpaired surrogate counts as U+FFFD)
const width = macro('width', (s, k) => (code(s, k) < 128 ? 1 : code(s, k) < 2048 ? 2 : opens(s, k) ? 4 : paired(s, k) ? 0 : 3));
const u8 = rec('u8', ['str', 'int'], 'int', (s, k) => (k <= 0 ? 0 : u8(s, k - 1) + width(s, k - 1)));
C.push({
    id: 'codePointAt', property: 'S01', file: Sf + 'character/codePointAt.ts', keepUndef: true,
    params: { value: ustr(), index: T.or(T.int(), T.fp({ nz: true, max: 1e6 }), T.const(undefined)) }, engine: { units: true, cvcFirst: true },
    returns: T.or(T.const(null), T.nat()),
    ensures: {
        'null-outside-the-string': ({ value, old_index, result }) => (old_index !== undefined && !(isInt(old_index) && old_index >= 0 && old_index < value.length)) || (old_index === undefined && value.length === 0) ? result === null : result !== null,
        'the-code-point': ({ value, old_index, result }) => result === null || result === (old_index === undefined ? cpAt(value, 0) : cpAt(value, old_index)),
    },
});
C.push({
    id: 'bytesLength', property: 'S01', file: Sf + 'bytes/bytesLength.ts',
    params: { value: ustr() }, engine: { units: true, cvcFirst: true }, returns: T.nat(),
    inv: [({ $i, $m, value }) => $m === u8(value, $i) && (!($i < value.length) || !paired(value, $i))],
    ensures: { 'counts-utf8-bytes': ({ value, result }) => result === u8(value, value.length) },
});
// where the bytes of code unit k go, and what they are, one clause per length of the encoding
const one = macro('one', (r, p, s, k) => implies(code(s, k) < 128, r[p] === code(s, k)));
const two = macro('two', (r, p, s, k) => implies(code(s, k) >= 128 && code(s, k) < 2048, r[p] === 192 + div(code(s, k), 64) && r[p + 1] === 128 + mod(code(s, k), 64)));
const three = macro('three', (r, p, s, k) => implies(code(s, k) >= 2048 && !isHi(code(s, k)) && !isLo(code(s, k)), r[p] === 224 + div(code(s, k), 4096) && r[p + 1] === 128 + mod(div(code(s, k), 64), 64) && r[p + 2] === 128 + mod(code(s, k), 64)));
const four = macro('four', (r, p, s, k) => implies(opens(s, k), r[p] === 240 + div(cpAt(s, k), 262144) && r[p + 1] === 128 + mod(div(cpAt(s, k), 4096), 64) && r[p + 2] === 128 + mod(div(cpAt(s, k), 64), 64) && r[p + 3] === 128 + mod(cpAt(s, k), 64)));
const lone = macro('lone', (r, p, s, k) => implies((isHi(code(s, k)) && !opens(s, k)) || (isLo(code(s, k)) && !paired(s, k)), r[p] === 239 && r[p + 1] === 191 && r[p + 2] === 189));
C.push({
    id: 'bytesArray', property: 'S01', file: Sf + 'bytes/bytesArray.ts', engine: { units: true, cvcFirst: true },
    params: { value: ustr() },
    inv: [
        ({ $i, $a, value }) => $a.length === u8(value, $i) && (!($i < value.length) || !paired(value, $i)),
        ({ $i, $a, value }) => forall(0, $i, k => u8(value, k) >= 0 && u8(value, k) + width(value, k) <= $a.length),
        ({ $i, $a, value }) => forall(0, $i, k => one($a, u8(value, k), value, k)),
        ({ $i, $a, value }) => forall(0, $i, k => two($a, u8(value, k), value, k)),
        ({ $i, $a, value }) => forall(0, $i, k => three($a, u8(value, k), value, k)),
        ({ $i, $a, value }) => forall(0, $i, k => four($a, u8(value, k), value, k)),
        ({ $i, $a, value }) => forall(0, $i, k => lone($a, u8(value, k), value, k)),
    ],
    ensures: {
        'as-many-bytes-as-utf8': ({ value, result }) => result.length === u8(value, value.length),
        'ascii': ({ value, result }) => forall(0, value.length, k => one(result, u8(value, k), value, k)),
        'two-byte-characters': ({ value, result }) => forall(0, value.length, k => two(result, u8(value, k), value, k)),
        'three-byte-characters': ({ value, result }) => forall(0, value.length, k => three(result, u8(value, k), value, k)),
        'supplementary-characters': ({ value, result }) => forall(0, value.length, k => four(result, u8(value, k), value, k)),
        'unpaired-surrogates-replaced': ({ value, result }) => forall(0, value.length, k => lone(result, u8(value, k), value, k)),
    },
});
// ---- prefixes and searches
const GEN = (extra = {}) => T.or(T.const(undefined), T.rec({ position: { optional: T.or(T.int({ min: -2, gmax: 12 }), T.const(undefined)) }, caseSensitivity: { optional: T.or(T.const(true), T.const(undefined)) }, ...extra }));
const posOf = macro('posOf', o => (o === undefined || o.position === undefined ? 0 : o.position));
const badPos = macro('badPos', (s, p) => !(isInt(p) && p >= 0 && p <= s.length));
const startsAt = macro('startsAt', (s, c, p) => sub(s, p, c.length) === c);
C.push({
    id: 'startsSlice', property: 'S03', file: Sf + 'starts/startsSlice.ts', keepUndef: true,
    params: { str: T.str(), chunk: T.str(), options: GEN({ preserve: { optional: T.or(T.bool(), T.const(undefined)) } }) },

    ensures: {
        'position-valid': ({ str, options }) => !badPos(str, posOf(options)),
        'other-text-unchanged': ({ str, chunk, options, result }) => implies(!startsAt(str, chunk, posOf(options)), result === str),
        'prefix-removed': ({ str, chunk, options, result }) => implies(startsAt(str, chunk, posOf(options)), result === (options !== undefined && options.preserve === true ? sub(str, 0, posOf(options)) : '') + sub(str, posOf(options) + chunk.length, str.length - posOf(options) - chunk.length)),
    },
    throws: { 'only-an-invalid-position': ({ str, options, error }) => badPos(str, posOf(options)) && errName(error) === 'TypeError' },
});
C.push({
    id: 'notStarts', property: 'S03', file: Sf + 'starts/notStarts.ts', keepUndef: true,
    params: { str: T.str(), chunks: T.arr(T.str()), options: GEN() },
    inv: [({ $i, chunks, str, options }) => forall(0, $i, k => !startsAt(str, chunks[k], posOf(options)))],
    ensures: {
        'true-iff-no-chunk-starts-there': ({ str, chunks, options, result }) => result === (str.length === 0 || chunks.length === 0 || !exists(0, chunks.length, k => startsAt(str, chunks[k], posOf(options)))),
    },
    throws: { 'only-an-invalid-position': ({ str, chunks, options, error }) => str.length > 0 && chunks.length > 0 && badPos(str, posOf(options)) && errName(error) === 'TypeError' },
});
C.push({
    id: 'frontOf', property: 'S03', file: Sf + 'find/frontOf.ts', keepUndef: true,
    params: { str: T.str(), chunks: T.arr(T.str()), options: GEN() },
    inv: [({ $i, chunks, str, options }) => forall(0, $i, k => !(badPos(str, posOf(options)) || options === undefined || options.position === undefined || options.position === str.length ? str : sub(str, 0, options.position + 1)).includes(chunks[k]))],
    ensures: {
        'found-in-the-text-up-to-the-position': ({ str, chunks, options, result }) => result === (str.length > 0 && exists(0, chunks.length, k => (options === undefined || options.position === undefined || badPos(str, options.position) || options.position === str.length ? str : sub(str, 0, options.position + 1)).includes(chunks[k]))),
    },
});
C.push({
    id: 'behindOf', property: 'S03', file: Sf + 'find/behindOf.ts', keepUndef: true,
    params: { str: T.str(), chunks: T.arr(T.str()), options: T.or(T.const(undefined), T.rec({ position: { optional: T.or(T.nat(), T.const(undefined)) }, caseSensitivity: { optional: T.or(T.const(true), T.const(undefined)) } })) },
    inv: [({ $i, chunks, str, options }) => forall(0, $i, k => !(sub(str, min(posOf(options), str.length), str.length - min(posOf(options), str.length))).includes(chunks[k]))],
    ensures: {
        'found-in-the-text-from-the-position': ({ str, chunks, options, result }) => result === (str.length > 0 && exists(0, chunks.length, k => (sub(str, min(posOf(options), str.length), str.length - min(posOf(options), str.length))).includes(chunks[k]))),
    },
});
for (const [nm, ch] of [['startSpacesLength', ' '], ['startTabsLength', '\t']]) C.push({
    id: nm, property: 'S03', file: Sf + 'spaces/' + nm + '.ts',
    params: { str: T.str({ alphabet: ' \t\na' }) }, returns: T.nat(),
    ensures: ch === ' ' ? {
        'in-range': ({ str, result }) => result >= 0 && result <= str.length,
        'only-spaces-before': ({ str, result }) => forall(0, result, k => code(str, k) === 32),
        'none-missed': ({ str, result }) => result === str.length || code(str, result) !== 32,
    } : {
        'in-range': ({ str, result }) => result >= 0 && result <= str.length,
        'only-tabs-before': ({ str, result }) => forall(0, result, k => code(str, k) === 9),
        'none-missed': ({ str, result }) => result === str.length || code(str, result) !== 9,
    },
});
// ---- nothing is lost when text is cut up
for (const nm of ['bindInside', 'bindOutside']) C.push({
    id: nm, property: 'S02', uses: { [nm]: Sf + 'inside/' + nm + '.ts' },
    drive: nm === 'bindInside' ? (value, escape) => bindInside(value, { escape }, s => s) : (value, escape) => bindOutside(value, { escape }, s => s),
    params: { value: T.str({ alphabet: 'ab\'"`()[]\\ ' }), escape: T.or(T.const(undefined), T.const(false), T.const(true)) },
    inv: [({ $m, $a, value }) => $m >= 0 && $m <= value.length && concat($a) === sub(value, 0, $m)],
    ensures: { 'every-character-kept-in-order': ({ value, result }) => result === value },
});
C.push({
    id: 'matchSplit', property: 'S02', file: Sf + 'match/matchSplit.ts',
    params: { str: T.str({ alphabet: 'ab1- \u4e2d' }), reg: T.regexp() },
    ensures: {
        'three-pieces-or-none': ({ str, reg, result }) => (str.length > 0 && matches(reg, str) && !isGlobal(reg) ? result.length === 3 : result.length === 0),
        'pieces-make-up-the-text': ({ str, result }) => (result.length === 3 ? result[0] + result[1] + result[2] === str : true),
    },
});
C.push({
    id: 'fromChars', property: 'S02', uses: { chars: Sf + 'chars/chars.ts', fromChars: Sf + 'chars/fromChars.ts' },
    drive: value => fromChars(chars(value)), params: { value: T.str() },
    ensures: { 'round-trip': ({ value, result }) => result === value },
});
C.push({
    id: 'splitByBytes', property: 'S02', file: Sf + 'bytes/splitByBytes.ts', bounded: 'random strings of up to 40 code units over all encoding lengths, limits 1 to 12 and a few others',
    params: { value: T.str(), highWaterMark: T.int({ min: 1, gmax: 12 }) }, runMs: 8000, runMax: 4000,
    ensures: {
        'nothing-lost': ({ value, result }) => Array.isArray(result) && result.every(x => typeof x === 'string' && x.length > 0) && result.join('') === value,
        'characters-kept-whole': ({ result, value }) => result.reduce((a, x) => a + Array.from(x).length, 0) === Array.from(value).length,
        'within-the-limit': ({ result, highWaterMark }) => result.every(x => u8(x, x.length) <= highWaterMark || Array.from(x).length === 1),
        'no-room-wasted': ({ result, highWaterMark }) => result.every((x, k) => k === 0 || u8(result[k - 1], result[k - 1].length) + u8(Array.from(x)[0], Array.from(x)[0].length) > highWaterMark),
    },
});
