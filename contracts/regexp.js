'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, kindOf, matches, finds, sub, code } = require('../lib/speclib');
const R = 'packages/regexp/src/', C = module.exports = [];

// ---- R01: what the validators accept -------------------------------------
const DIG = s => s + '0123456789';
const PHONE = () => T.or(T.str({ alphabet: '0123456789+8611300 ', gen: undefined }), T.nat());
const phoneText = (r) => {
    const d = n => Array.from({ length: n }, () => r.int(10)).join('');
    let t = r.pick(['', '', '+86', '0086', '86', '+0086', '00', '+']) + r.pick(['1', '1', '1', '2', '']) + d(r.pick([10, 10, 10, 10, 9, 11]));
    if (r.bool(0.15)) t = r.pick([t + '\n', ' ' + t, t + 'a', t.replace(/\d$/, '\u0661'), t + '0', t.slice(1)]);
    return t;
};
const level = (n, strict, accepts) => C.push({
    id: 'isChinaPhoneNumber' + n, property: 'R01', file: R + 'isChinaPhoneNumber.ts',
    params: { value: T.or({ ...T.str(), gen: phoneText }, T.nat()), strictLevel: strict },
    ensures: { 'exactly-the-numbers-of-this-level': accepts },
});
level('Loose', T.const(0), ({ value, result }) => result === matches(/^(\+86|0086)?1[0-9]{10}$/, `${value}`));
level('Medium', T.oneOf(1, undefined), ({ value, result }) => result === matches(/^(\+86|0086)?1[3-9][0-9]{9}$/, `${value}`));
level('Strict', T.const(2), ({ value, result }) => result === matches(/^(\+86|0086)?1(3[0-9]|4[5-79]|5[0-35-9]|6[5-7]|7[0-8]|8[0-9]|9[0-25-9])[0-9]{8}$/, `${value}`));
C.push({
    id: 'phoneLevels', property: 'R01', uses: { phone: R + 'isChinaPhoneNumber.ts' }, drive: 'value => [phone(value, 0), phone(value, 1), phone(value, 2)]',
    params: { value: { ...T.str(), gen: phoneText } },
    ensures: { 'a-stricter-level-accepts-no-more': ({ result }) => implies(result[2], result[1]) && implies(result[1], result[0]) },
});
const word = (r, n) => Array.from({ length: n }, () => r.pick([...'abcXYZ019-_+='])).join('');
const emailText = r => {
    const L = r.pick([1, 3, 10, 62, 63, 64, 65, 66, 100]), D = r.pick([2, 5, 30, 200, 250, 251, 255, 256, 257, 300]);
    let u = r.bool(0.3) ? '"' + r.pick(['a', '@', 'a@b', ' ', 'é']).repeat(1 + r.int(3)) + 'x'.repeat(Math.max(0, L - 6)) + '"' : r.bool(0.3) ? word(r, 2) + '.' + word(r, Math.max(1, L - 3)) : word(r, L);
    let dom = ''; while (dom.length < D - 4) dom += 'a' + word(r, Math.min(40, Math.max(0, D - dom.length - 6))).replace(/[+=]/g, 'b') + '.';
    dom += r.pick(['com', 'cn', 'x', 'c1', '-a', 'co-m']);
    if (r.bool(0.15)) dom = r.pick(['[1.2.3.4]', '[1.2.3]', '[256.0.0.1234]', '', 'a..b', '-a.com']);
    let t = u + r.pick(['@', '@', '@', '@', '@', '', '@@']) + dom;
    return r.bool(0.05) ? t + '\n' : t;
};
C.push({
    id: 'isEmail', property: 'R01', file: R + 'isEmail.ts', params: { email: { ...T.str(), gen: emailText } },
    ensures: {
        'shape-and-lengths': ({ email, result }) => result === (email.length <= 320 && matches(/^((".+")|([-+*={}`~%&|^!?#'$\w\/]{1,}\.)*[-+*={}`~%&|^!?#'$\w\/]{1,})@(\[[\d]{1,3}(\.[\d]{1,3}){3}\]|([0-9a-zA-Z][-\w]{0,63}\.)*[a-zA-Z][-\w]{0,62}[a-zA-Z])$/, email) && email.lastIndexOf('@') <= 64 && email.length - email.lastIndexOf('@') - 1 <= 255),
    },
});
const SCRIPT = (alphabet) => T.str({ alphabet });
C.push({
    id: 'inJapanese', property: 'R01', file: R + 'inJapanese.ts', params: { str: SCRIPT('a \u2e80\u2e99\u2e9a\u2e9b\u3005\u3040\u3041\u3096\u3097\u309c\u309d\u30a0\u30a1\u30fa\u30fb\u30fd\u4e2d\u9fef\u9ff0\u3300\u3357\u3358\uff65\uff66\uff70\uff71\uff9d\uff9e') },
    ensures: { 'holds-a-japanese-character': ({ str, result }) => result === matches(/[\u2E80-\u2E99\u2E9B-\u2EF3\u2F00-\u2FD5\u3005\u3007\u3021-\u3029\u3038-\u303B\u3400-\u4DB5\u4E00-\u9FEF\uF900-\uFA6D\uFA70-\uFAD9\u3041-\u3096\u309D-\u309F\u30A1-\u30FA\u30FD-\u30FF\u31F0-\u31FF\u32D0-\u32FE\u3300-\u3357\uFF66-\uFF6F\uFF71-\uFF9D]/, str) },
});
C.push({
    id: 'inChkPunctuation', property: 'R01', file: R + 'inChkPunctuation.ts', params: { str: SCRIPT('a ,.\u1fff\u2000\u206f\u2070\u2dff\u2e00\u2e7f\u2e80\u3000\u303f\u3040\ufe0f\ufe10\ufe1f\ufe20\ufe30\ufe4f\ufe50\uff00\uffef\ufff0') },
    ensures: { 'holds-such-a-mark': ({ str, result }) => result === matches(/[\u2000-\u206F\u2E00-\u2E7F\u3000-\u303F\uFE10-\uFE1F\uFE30-\uFE4F\uFF00-\uFFEF]/, str) },
});
const KANA = () => SCRIPT('ab\u3041\u3096\u3097\u3098\u3099\u309f\u30a0\u30ff\u31f0\u3357\u3358\uff66\uff70\uff9d\uff9e\u4e2d\u4e00\u9fef\u9ff0\u3400\u4db5\u4db6\ufa0e\ufa10\ufa29\ufa2a\ud840\udc00\ud869\uded6\uded7\udf00\ud86d\udf34\udf35\ud86e\udc1e\ud873\ud87a\udfe0\udfe1');
C.push({
    id: 'inChinese', property: 'R01', file: R + 'inChinese.ts', params: { str: KANA(), vhk: T.or(T.bool(), T.const(undefined)) },
    ensures: { 'holds-an-ideograph-and-no-kana-when-asked': ({ str, vhk, result }) => result === (matches(/[\u3400-\u4DB5\u4E00-\u9FEF\uFA0E\uFA0F\uFA11\uFA13\uFA14\uFA1F\uFA21\uFA23\uFA24\uFA27-\uFA29]|[\uD840-\uD868\uD86A-\uD86C\uD86F-\uD872\uD874-\uD879][\uDC00-\uDFFF]|\uD869[\uDC00-\uDED6\uDF00-\uDFFF]|\uD86D[\uDC00-\uDF34\uDF40-\uDFFF]|\uD86E[\uDC00-\uDC1D\uDC20-\uDFFF]|\uD873[\uDC00-\uDEA1\uDEB0-\uDFFF]|\uD87A[\uDC00-\uDFE0]/, str) && !(vhk === true && matches(/[\u3041-\u3096\u3099-\u309F\u30A0-\u30FF\u31F0-\u31FF\u32D0-\u32FE\u3300-\u3357\uFF66-\uFF6F\uFF71-\uFF9D]/, str))) },
});

// ---- R02: running patterns over a text -----------------------------------
const TEXT = () => T.str({ alphabet: 'aab bc-019\u4e2d' });
const SUBJ = gen => ({ ...T.str(), gen: r => Array.from({ length: r.int(8) }, () => r.pick([...'aabbc-01 ', '\u4e2d', '\ud83d\ude00'])).join('') });
for (const [id, all] of [['testEvery', true], ['testSome', false]]) C.push({
    id, property: 'R02', file: R + id + '.ts', params: { regexps: T.regexps(), str: SUBJ() },
    requires: ({ regexps, str }) => str.length > 0,
    throws: undefined,
    inv: all ? [({ $i, regexps, str }) => 0 <= $i && $i <= regexps.length && forall(0, $i, k => finds(regexps[k], str))] : [({ $i, regexps, str }) => 0 <= $i && $i <= regexps.length && forall(0, $i, k => !finds(regexps[k], str))],
    ensures: all ? { 'true-iff-every-pattern-is-found': ({ regexps, str, result }) => result === forall(0, regexps.length, k => finds(regexps[k], str)) } : { 'true-iff-some-pattern-is-found': ({ regexps, str, result }) => result === exists(0, regexps.length, k => finds(regexps[k], str)) },
});
C.push({
    id: 'testTwice', property: 'R02', runMs: 9000, runMax: 60000, uses: { every: R + 'testEvery.ts', some: R + 'testSome.ts' }, drive: '(regexps, str) => [every(regexps, str), some(regexps, str), every(regexps, str), some(regexps, str)]',
    params: { regexps: T.regexps(), str: SUBJ() }, bounded: 'generated patterns (with and without the g flag, used before or not) over short texts',
    requires: ({ regexps, str }) => str.length > 0,
    ensures: { 'asking-again-gives-the-same-answer': ({ result }) => result[0] === result[2] && result[1] === result[3] && (!result[0] || result[1] || true) },
});
C.push({
    id: 'testNothing', property: 'R02', uses: { every: R + 'testEvery.ts', some: R + 'testSome.ts' }, drive: 'all => all ? every([], "") : some([], "")', params: { all: T.bool() },
    throws: { 'nothing-to-test-is-refused': () => true }, ensures: {},
});
C.push({
    id: 'matchNextIndex', property: 'R02', file: R + 'matchNextIndex.ts', params: { match: T.rec({ 0: T.str(), index: T.nat() }) },
    ensures: { 'just-behind-the-match': ({ match, result }) => result === match.index + match[0].length },
});
const one = (a, b) => a === null ? b === null : b !== null && a.length === b.length && a.index === b.index && a.input === b.input && [...a].every((x, k) => x === b[k]);
const allOf = (re, s) => { const c = new RegExp(re.source, re.flags); if (re.global) return Array.from(s.matchAll(c)); const m = c.exec(s); return m ? [m] : []; };
C.push({
    id: 'execAll', property: 'R02', runMs: 9000, runMax: 60000, file: R + 'execAll.ts', bounded: 'generated patterns (among them ones matching the empty text, with the flags g, i, m and u) over short texts', hangMs: 2000,
    params: { reg: { ...T.regexp(), gen: r => new RegExp(r.pick(['a', 'b', 'a+', 'a*', '', '(?:)', '\\b', '(a)(b)?', '(?<x>a)|b', '.', '^', '$', '(?=a)', '[^a]*', 'zz']), r.pick(['g', 'g', 'g', '', 'gi', 'gm', 'gu', 'u'])) }, str: SUBJ(), keyOrCallback: T.oneOf(undefined, 0, 1, 'index', 'input', 'groups') },
    ensures: {
        'every-match-once-in-order': ({ reg, str, keyOrCallback, result }) => { const w = allOf(reg, str); return Array.isArray(result) && result.length === w.length && result.every((x, k) => keyOrCallback === undefined ? one(x, w[k]) : keyOrCallback === 'groups' ? JSON.stringify(x) === JSON.stringify(w[k].groups) : x === w[k][keyOrCallback]); },
        'the-pattern-is-ready-for-another-text': ({ reg }) => reg.lastIndex === 0,
    },
});
C.push({
    id: 'mapReplace', property: 'R02', runMs: 9000, runMax: 60000, file: R + 'mapReplace.ts', bounded: 'up to a few generated patterns over short texts, replaced by texts (with $ groups) and by functions',
    params: { regexps: { ...T.regexps(), gen: r => Array.from({ length: r.int(4) }, () => new RegExp(r.pick(['a', 'b+', '', '(a)(b)?', '-', '^.']), r.pick(['', 'g', 'gi']))) }, value: SUBJ(), replacer: { ...T.str(), gen: r => r.pick(['', 'x', '$&$&', '[$1]', 'ab', m => m + m, (m, g) => `<${typeof g}>`]) } },
    ensures: { 'each-pattern-in-turn': ({ regexps, value, replacer, result }) => { let t = value; for (const r of regexps) t = t.replace(new RegExp(r.source, r.flags), replacer); return t === result; } },
});
const Sf = 'packages/string/src/';
C.push({
    id: 'multiReplace', property: 'R02', runMs: 9000, runMax: 60000, file: Sf + 'multiReplace.ts', bounded: 'up to a few generated pairs (patterns or texts, replaced by texts or functions), written as pairs or as objects, over short texts',
    params: { value: SUBJ(), matchers: { ...T.arr(T.tok()), gen: r => Array.from({ length: r.int(4) }, () => { const m = r.bool() ? r.pick(['a', 'b', '', 'ab', '.']) : new RegExp(r.pick(['a', 'b+', '', '(a)(b)?', '-', '^.']), r.pick(['', 'g', 'gi'])), x = r.pick(['', 'x', '$&$&', 'ab', m => m + m]); return r.bool() ? [m, x] : { match: m, replacer: x }; }) } },
    ensures: { 'each-pair-in-turn': ({ value, matchers, result }) => { let t = value; for (const r of matchers) { const [m, x] = Array.isArray(r) ? r : [r.match, r.replacer]; t = t.replace(typeof m === 'string' ? m : new RegExp(m.source, m.flags), x); } return t === result; } },
});
