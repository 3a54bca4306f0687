'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, div, mod, min, max, errName, isInt, kindOf, code, sub, concat, matches, ndraws, draw, stripAll, swapAll, stripFront, stripBack } = require('../lib/speclib');
const Sf = 'packages/string/src/', C = module.exports = [];

// ---- removing characters from text ---------------------------------------
// the three groups of characters, as they are documented
const TXT = () => T.str({ alphabet: 'a b\t\n\u200b\ufeff\u2064\u2065\u2066\u206f\u2070\u202a\u202e\u202f\u00a0\u3000\u2000\u200a\u200f\u205f\u2028\u2029\u0085\b\v\f\r\u0084\u0007' });
const frontZeroWidth = macro('frontZeroWidth', (v, r) => v.endsWith(r) && matches(/^[\ufeff\u200b-\u200f\u202a-\u202e\u2060-\u2064\u2066-\u206f]*$/, sub(v, 0, v.length - r.length)) && !matches(/^[\ufeff\u200b-\u200f\u202a-\u202e\u2060-\u2064\u2066-\u206f]/, r));
const backZeroWidth = macro('backZeroWidth', (v, r) => v.startsWith(r) && matches(/^[\ufeff\u200b-\u200f\u202a-\u202e\u2060-\u2064\u2066-\u206f]*$/, sub(v, r.length, v.length - r.length)) && !matches(/[\ufeff\u200b-\u200f\u202a-\u202e\u2060-\u2064\u2066-\u206f]$/, r));
C.push({
    id: 'rmZeroWidthStart', property: 'S04', file: Sf + 'spaces/rmZeroWidthStart.ts', params: { value: TXT() },
    ensures: { 'exactly-the-leading-ones-removed': ({ value, result }) => frontZeroWidth(value, result) },
});
C.push({
    id: 'rmZeroWidthEnd', property: 'S04', file: Sf + 'spaces/rmZeroWidthEnd.ts', params: { value: TXT() },
    ensures: { 'exactly-the-trailing-ones-removed': ({ value, result }) => backZeroWidth(value, result) },
});
C.push({
    id: 'rmZeroWidth', property: 'S04', file: Sf + 'spaces/rmZeroWidth.ts', params: { value: TXT() },
    ensures: { 'exactly-these-characters-removed': ({ value, result }) => result === stripAll(/[\ufeff\u200b-\u200f\u202a-\u202e\u2060-\u2064\u2066-\u206f]/, value) },
});
const frontLikeSpace = macro('frontLikeSpace', (v, r) => v.endsWith(r) && matches(/^[\u00a0\u2000-\u200a\u202f\u205f\u3000]*$/, sub(v, 0, v.length - r.length)) && !matches(/^[\u00a0\u2000-\u200a\u202f\u205f\u3000]/, r));
const backLikeSpace = macro('backLikeSpace', (v, r) => v.startsWith(r) && matches(/^[\u00a0\u2000-\u200a\u202f\u205f\u3000]*$/, sub(v, r.length, v.length - r.length)) && !matches(/[\u00a0\u2000-\u200a\u202f\u205f\u3000]$/, r));
C.push({
    id: 'rmLikeSpaceStart', property: 'S04', file: Sf + 'spaces/rmLikeSpaceStart.ts', params: { value: TXT() },
    ensures: { 'exactly-the-leading-ones-removed': ({ value, result }) => frontLikeSpace(value, result) },
});
C.push({
    id: 'rmLikeSpaceEnd', property: 'S04', file: Sf + 'spaces/rmLikeSpaceEnd.ts', params: { value: TXT() },
    ensures: { 'exactly-the-trailing-ones-removed': ({ value, result }) => backLikeSpace(value, result) },
});
// leading and trailing ones removed, those inside become ordinary spaces
C.push({
    id: 'rmLikeSpace', property: 'S04', uses: { whole: Sf + 'spaces/rmLikeSpace.ts', front: Sf + 'spaces/rmLikeSpaceStart.ts', back: Sf + 'spaces/rmLikeSpaceEnd.ts' }, drive: 'value => [whole(value), front(back(value))]', params: { value: TXT() },
    ensures: { 'ends-trimmed-inside-replaced': ({ value, result }) => result[0] === swapAll(/[\u00a0\u2000-\u200a\u202f\u205f\u3000]/, result[1], ' ') },
});
const frontControl = macro('frontControl', (v, r) => v.endsWith(r) && matches(/^[\u2028\u2029\t\r\n\f\v\u0008\u0085]*$/, sub(v, 0, v.length - r.length)) && !matches(/^[\u2028\u2029\t\r\n\f\v\u0008\u0085]/, r));
const backControl = macro('backControl', (v, r) => v.startsWith(r) && matches(/^[\u2028\u2029\t\r\n\f\v\u0008\u0085]*$/, sub(v, r.length, v.length - r.length)) && !matches(/[\u2028\u2029\t\r\n\f\v\u0008\u0085]$/, r));
C.push({
    id: 'rmControlStart', property: 'S04', file: Sf + 'spaces/rmControlStart.ts', params: { value: TXT() },
    ensures: { 'exactly-the-leading-ones-removed': ({ value, result }) => frontControl(value, result) },
});
C.push({
    id: 'rmControlEnd', property: 'S04', file: Sf + 'spaces/rmControlEnd.ts', params: { value: TXT() },
    ensures: { 'exactly-the-trailing-ones-removed': ({ value, result }) => backControl(value, result) },
});
C.push({
    id: 'rmControl', property: 'S04', file: Sf + 'spaces/rmControl.ts', params: { value: TXT() },
    ensures: { 'exactly-these-characters-removed': ({ value, result }) => result === stripAll(/[\u2028\u2029\t\r\n\f\v\u0008\u0085]/, value) },
});

// ---- trimming: every choice of the four groups, and further characters
const CLASS = { space: ' ', zeroWidth: '\\ufeff\\u200b-\\u200f\\u202a-\\u202e\\u2060-\\u2064\\u2066-\\u206f', likeSpace: '\\u00a0\\u2000-\\u200a\\u202f\\u205f\\u3000', control: '\\u2028\\u2029\\t\\r\\n\\f\\v\\u0008\\u0085' };
const trimOf = (id, options, extras, cls) => {
    const c = {
        id: 'trim' + id, property: 'S04', uses: { trim: Sf + 'trim/trim.ts', trimStart: Sf + 'trim/trimStart.ts', trimEnd: Sf + 'trim/trimEnd.ts', trimAll: Sf + 'trim/trimAll.ts', blank: Sf + 'spaces/isSpaceString.ts' },
        drive: `value => [trimStart(value, ${options}, ${extras}), trimEnd(value, ${options}, ${extras}), trim(value, ${options}, ${extras}), trimAll(value, ${options}, ${extras}), blank(value, ${options}, ${extras})]`,
        params: { value: TXT() }, engine: { strips: true },
    };
    const E = body => new Function('matches', 'stripFront', 'stripBack', 'stripAll', `return ({ value, result }) => ${body}`)(matches, stripFront, stripBack, stripAll);
    c.ensures = cls === '' ? { 'nothing-to-remove': ({ value, result }) => result[0] === value && result[1] === value && result[2] === value && result[3] === value && result[4] === (value === '') } : {
        'front-removed': E(`result[0] === stripFront(/[${cls}]/, value)`),
        'back-removed': E(`result[1] === stripBack(/[${cls}]/, value)`),
        'both-ends-removed': E(`result[2] === stripBack(/[${cls}]/, stripFront(/[${cls}]/, value))`),
        'everywhere-removed': E(`result[3] === stripAll(/[${cls}]/, value)`),
        'blank-iff-nothing-else': E(`result[4] === matches(/^[${cls}]+$/, value)`),
    };
    C.push(c);
};
for (let m = 0; m < 16; m++) {
    const on = Object.keys(CLASS).filter((_, k) => m & (1 << k)), off = Object.keys(CLASS).filter(k => !on.includes(k));
    trimOf(on.length === 4 ? 'Default' : on.length ? on.map(x => x[0].toUpperCase() + x.slice(1)).join('') : 'None', on.length === 4 ? 'undefined' : `{ ${off.map(k => k + ': false').join(', ')} }`, 'undefined', on.map(k => CLASS[k]).join(''));
}
trimOf('Extra', '{ zeroWidth: false, likeSpace: false, control: false }', '"xy"', ' xy');
trimOf('Extras', 'undefined', '["x", "yz"]', Object.values(CLASS).join('') + 'xyz');
trimOf('ExtraDash', '{ zeroWidth: false, likeSpace: false, control: false }', '["a", "-", "f"]', ' a\\-f');
trimOf('ExtraSpecial', '{ space: false, zeroWidth: false, likeSpace: false, control: false }', "'^]\\\\'", '\\^\\]\\\\');
C.push({
    id: 'trimAnyExtras', property: 'S04', uses: { trim: Sf + 'trim/trim.ts', trimStart: Sf + 'trim/trimStart.ts', trimEnd: Sf + 'trim/trimEnd.ts', trimAll: Sf + 'trim/trimAll.ts', blank: Sf + 'spaces/isSpaceString.ts' }, runMs: 3000, runMax: 30000,
    bounded: 'up to 4 further characters in up to 3 pieces, special ones included, in texts of up to 10 characters',
    drive: 'value => { const t = value.text, o = { space: false, zeroWidth: false, likeSpace: false, control: false }; return [trimStart(t, o, value.extras), trimEnd(t, o, value.extras), trim(t, o, value.extras), trimAll(t, o, value.extras), blank(t, o, value.extras)]; }',
    params: { value: { ...T.tok(), gen: r => { const c = () => r.pick([...'abcdxyz^]-[\\$.|*(){}&/09']), ex = Array.from({ length: 1 + r.int(4) }, c), n = r.int(3); return { extras: n === 0 ? ex.join('') : n === 1 ? ex : [ex.slice(0, 2).join(''), ...ex.slice(2)], text: Array.from({ length: r.int(11) }, () => r.bool(0.6) ? r.pick(ex) : c()).join('') }; } } },
    ensures: {
        'exactly-these-characters': ({ value, result }) => { const x = [value.extras].flat().join(''), t = [...value.text], out = c => !x.includes(c); const a = t.findIndex(out), z = t.findLastIndex(out); return result[0] === (a < 0 ? '' : value.text.slice(a)) && result[1] === value.text.slice(0, z + 1) && result[2] === (a < 0 ? '' : value.text.slice(a, z + 1)) && result[3] === t.filter(out).join('') && result[4] === (value.text !== '' && a < 0); },
    },
});

// ---- random text -----------------------------------------------------------
for (const [id, lo, hi] of [['randomLower', 97, 122], ['randomUpper', 65, 90]]) C.push({
    id, property: 'S05', file: Sf + 'random/' + id + '.ts', params: { isSafe: T.or(T.bool(), T.const(undefined)) },
    ensures: id === 'randomLower' ? { 'one-lower-case-letter': ({ result }) => result.length === 1 && code(result, 0) >= 97 && code(result, 0) <= 122 } : { 'one-upper-case-letter': ({ result }) => result.length === 1 && code(result, 0) >= 65 && code(result, 0) <= 90 },
});
C.push({
    id: 'randomLetters', property: 'S05', uses: { lower: Sf + 'random/randomLower.ts', upper: Sf + 'random/randomUpper.ts' }, drive: '() => [lower(), upper()]', params: {},
    ensures: { 'one-random-number-each-decides': () => ndraws() === 2, 'every-letter-equally-likely': ({ result }) => code(result[0], 0) - 97 <= draw(0) * 26 && draw(0) * 26 < code(result[0], 0) - 96 && code(result[1], 0) - 65 <= draw(1) * 26 && draw(1) * 26 < code(result[1], 0) - 64 },
});
C.push({
    id: 'randomBoolean', property: 'S05', file: Sf + 'random/randomBoolean.ts', params: { isSafe: T.or(T.bool(), T.const(undefined)) },
    ensures: { 'a-boolean': ({ result }) => kindOf(result) === 'boolean', 'one-random-number-decides': () => ndraws() === 1, 'even-shares': ({ isSafe, result }) => isSafe === true || exists(0, 5, k => 2 * k <= draw(0) * 10 && draw(0) * 10 < 2 * k + 1) === result },
});
C.push({
    id: 'randomHexColor', property: 'S05', file: Sf + 'random/randomHexColor.ts', engine: { hexCase: true }, params: { isSafe: T.or(T.bool(), T.const(undefined)) },
    ensures: { 'a-colour': ({ result }) => matches(/^#[0-9A-F]{6}$/, result) },
});
C.push({
    id: 'randomNumber', property: 'S05', file: Sf + 'random/randomNumber.ts', runMax: 1200, bounded: 'lengths up to 40, and lengths around the 65536-byte limit of one call', params: { length: T.or(T.nat({ gmax: 40 }), T.oneOf(65535, 65536, 65537, 131073), T.const(undefined)) },
    ensures: { 'digits-only': ({ result }) => /^[0-9]*$/.test(result), 'exactly-as-long-as-asked': ({ old_length, result }) => result.length === (old_length === undefined ? 15 : old_length) },
});
