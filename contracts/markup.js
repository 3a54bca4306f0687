'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, kindOf, matches, sub, code, isInt } = require('../lib/speclib');
const Sf = 'packages/string/src/', C = module.exports = [];

// ---- S06: text made literal, and back ------------------------------------
const META = [...'\\^$.*+?()[]{}|/-,!<>=:#&~`\'"%@ \n\t\r\u2028aAbB0159_xudnwsk', '\ud83d\ude00', '\u4e2d', '\ud83d', '\u00e9', '\u00c9'];
const PAT = () => ({ ...T.str(), gen: r => r.pick([0, 1]) ? Array.from({ length: 1 + r.int(6) }, () => r.pick(META)).join('') : r.pick(['a-z', '[a-z]', '\\d+', 'a|b', '(?:x)', '.*', '$&', '^$', 'x{2,3}', '\\', '\\\\', '-', 'a-', '/a/g', '\\b', '[^]', '\\u0041', '\\x41', '\\cA', '\\0', '(?=a)', '**', '+']) });
const FLAGS = ['', 'g', 'gi', 'm', 'u', 'gu', 'y', 'gm', undefined];
const lower = (a, u) => { try { return new RegExp(`^(?:${Array.from(a).map(c => `\\u{${c.codePointAt(0).toString(16)}}`).join('')})$`, 'iu'); } catch { return null; } };
const plainFind = (t, s, i) => i ? t.toLowerCase().indexOf(s.toLowerCase()) : t.indexOf(s);
C.push({
    id: 'toRegExp', property: 'S06', uses: { make: Sf + 'regexp/toRegExp.ts', source: Sf + 'regexp/toRegExpSource.ts' }, drive: '(str, flags, before, behind) => [make(str, flags), source(str)]', runMs: 8000, runMax: 60000,
    bounded: 'texts of up to 6 characters rich in special characters, all accepted flags, within texts of up to 14 characters',
    params: { str: PAT(), flags: T.oneOf(...FLAGS), before: { ...T.str(), gen: r => Array.from({ length: r.int(4) }, () => r.pick(META)).join('') }, behind: { ...T.str(), gen: r => Array.from({ length: r.int(4) }, () => r.pick(META)).join('') } },
    requires: ({ str, before, behind }) => !/[\ud800-\udfff]/.test(before.slice(-1) + behind.slice(0, 1)) && !/^[\udc00-\udfff]|[\ud800-\udbff]$/.test(str),
    ensures: {
        'a-pattern-with-these-flags': ({ flags, result }) => result[0] instanceof RegExp && result[0].flags === [...(flags ?? 'g')].sort().join(''),
        'finds-the-text-itself': ({ str, flags, result, before, behind }) => { const t = before + str + behind, f = (flags ?? 'g').replace(/[gy]/g, ''); if (f.includes('i') && str.toLowerCase() !== str.toUpperCase() && /[^\x00-\x7f]/.test(t)) return true; const m = new RegExp(result[0].source, f).exec(t), k = plainFind(t, str, f.includes('i')); return m !== null && m.index === k && (f.includes('i') ? m[0].toLowerCase() === str.toLowerCase() : m[0] === str); },
        'finds-nothing-else': ({ str, flags, result, before, behind }) => { const t = before + behind, f = (flags ?? 'g').replace(/[gy]/g, ''); if (f.includes('i') && /[^\x00-\x7f]/.test(t + str)) return true; const m = new RegExp(result[0].source, f).exec(t), k = plainFind(t, str, f.includes('i')); return m === null ? k === -1 : m.index === k && m[0].length === str.length; },
        'the-source-alone-does-too': ({ str, result }) => { const m = new RegExp('^' + result[1] + '$').exec(str); return m !== null && m[0] === str; },
    },
});
const NAMES = ['amp', 'lt', 'gt', 'quot', 'nbsp', 'ensp', 'emsp', 'thinsp', 'copy', 'euro', 'sup', 'supe', 'sub', 'sube', 'nsub', 'theta', 'thetasym', 'and', 'ang', 'int', 'xx', 'ampamp', 'or', 'ordf', 'pi', 'piv', 'zwj', 'zwnj', 'para', 'part', 'Alpha', 'alpha', 'eacute', 'Eacute'];
const POINTS = ['38', '60', '62', '34', '160', '8194', '169', '8364', '0', '999', '38;', '8834', '8838', '12'];
const ENT = () => ({ ...T.str(), gen: r => Array.from({ length: r.int(7) }, () => r.pick([() => r.pick([...'<>&"\' ;#ax1', '\u00a0', '\u2002', '\u2003', '\u2009', '\u20ac', '\u00e9', '\u2282', '\u2286', '\u03b8', '\u4e2d', '\ud83d\ude00', 'amp;', 'lt;', '#38;', '#60;']), () => '&' + r.pick(NAMES) + r.pick([';', ';', '']), () => '&#' + r.pick(POINTS) + r.pick([';', ';', ''])])()).join('') });
C.push({
    id: 'entities', property: 'S06', uses: { byName: { file: Sf + 'character/htmlEntities.ts', export: 'decodeEntityByName' }, byPoint: { file: Sf + 'character/htmlEntities.ts', export: 'decodeEntityByPoint' }, both: { file: Sf + 'character/htmlEntities.ts', export: 'decodeEntity' }, toName: { file: Sf + 'character/htmlEntities.ts', export: 'encodeEntityToName' }, toPoint: { file: Sf + 'character/htmlEntities.ts', export: 'encodeEntityToPoint' } },
    drive: 'text => [byName(toName(text)), byPoint(toPoint(text)), both(toName(text)), both(toPoint(text)), toName(text), toPoint(text), byName(text), byPoint(text), both(text)]',
    bounded: 'texts of up to 7 parts rich in entities, half entities and encodable characters', runMs: 8000, runMax: 60000,
    params: { text: ENT() },
    ensures: {
        'encoding-and-decoding-by-name-gives-the-text-back': ({ text, result }) => result[0] === text && result[2] === text,
        'encoding-and-decoding-by-number-gives-the-text-back': ({ text, result }) => result[1] === text && result[3] === text,
        'nothing-special-left-in-encoded-text': ({ result }) => !/[<>"]|&(?![A-Za-z0-9]+;)/.test(result[4]) && !/[<>"]|&(?!#\d+;)/.test(result[5]),
        'an-entity-number-names-its-character': ({ text, result }) => { const r = result[7], parts = text.split(/(&#\d+;)/); const go = (k, at) => k === parts.length ? at === r.length : [parts[k], ...(k % 2 ? [String.fromCharCode(Number(parts[k].slice(2, -1)))] : [])].some(x => r.startsWith(x, at) && go(k + 1, at + x.length)); return go(0, 0); },
        'every-entity-decoded-once': ({ text, result }) => !/&#/.test(text) ? result[8] === result[6] : !/&[A-Za-z]/.test(text) ? result[8] === result[7] : true,
        'text-without-entities-unchanged': ({ text, result }) => text.includes('&') || (result[6] === text && result[7] === text && result[8] === text),
    },
});
C.push({
    id: 'eachEntity', property: 'S06', uses: { byName: { file: Sf + 'character/htmlEntities.ts', export: 'decodeEntityByName' }, byPoint: { file: Sf + 'character/htmlEntities.ts', export: 'decodeEntityByPoint' }, toName: { file: Sf + 'character/htmlEntities.ts', export: 'encodeEntityToName' }, toPoint: { file: Sf + 'character/htmlEntities.ts', export: 'encodeEntityToPoint' } },
    drive: '() => Array.from({ length: 10240 }, (_, unit) => { const c = String.fromCharCode(unit); return [toName(c), byName(toName(c)), toPoint(c), byPoint(toPoint(c)), byPoint("&#" + unit + ";")]; })',
    bounded: 'each character of the basic plane up to U+27FF alone', runMax: 3, params: {},
    ensures: {
        'the-number-is-the-character': ({ result }) => result.every((x, unit) => { const c = String.fromCharCode(unit); return (x[2] === c ? x[0] === c && (x[4] === `&#${unit};`) : x[2] === `&#${unit};` && x[4] === c && /^&[A-Za-z0-9]+;$/.test(x[0])) && x[1] === c && x[3] === c; }),
    },
});

// ---- S07: where the words are ---------------------------------------------
const WS = () => T.str({ alphabet: 'xx a  \t\n\u00a0\u3000\ufeff' });
const blankAt = macro('blankAt', (s, i) => (code(s, i) >= 9 && code(s, i) <= 13) || code(s, i) === 32 || code(s, i) === 160 || code(s, i) === 5760 || (code(s, i) >= 8192 && code(s, i) <= 8202) || code(s, i) === 8232 || code(s, i) === 8233 || code(s, i) === 8239 || code(s, i) === 8287 || code(s, i) === 12288 || code(s, i) === 65279);
C.push({
    id: 'wordEnd', property: 'S07', file: Sf + 'words/wordEnd.ts', params: { str: WS(), position: T.or(T.nat({ gmax: 12 }), T.const(undefined)) },
    ensures: {
        'null-only-when-nothing-but-blanks-from-the-position-on': ({ str, position, result }) => result !== null || forall(0, str.length, i => i < (position === undefined ? 0 : position) || blankAt(str, i)),
        'otherwise-a-character-from-the-position-on-that-is-not-blank': ({ str, position, result }) => result === null || (result >= (position === undefined ? 0 : position) && result < str.length && !blankAt(str, result)),
        'with-nothing-but-blanks-behind-it': ({ str, result }) => result === null || forall(0, str.length, i => i <= result || blankAt(str, i)),
    },
});
C.push({
    id: 'wordStart', property: 'S07', file: Sf + 'words/wordStart.ts', bounded: 'texts of up to a dozen characters with blanks and line ends, positions up to 12', runMs: 6000, runMax: 40000,
    params: { str: WS(), position: T.or(T.nat({ gmax: 12 }), T.const(undefined)) },
    ensures: { 'the-first-character-that-is-not-blank': ({ str, position, result }) => { const p = position ?? 0, k = str.slice(p).search(/\S/); return result === (k === -1 ? null : p + k); } },
});
C.push({
    id: 'word', property: 'S07', file: Sf + 'words/word.ts', bounded: 'texts of up to a dozen characters with blanks and line ends, positions up to 12', runMs: 6000, runMax: 40000,
    params: { str: WS(), position: T.or(T.nat({ gmax: 12 }), T.const(undefined)) },
    ensures: { 'both-ends-or-nothing': ({ str, position, result }) => { const p = position ?? 0, t = str.slice(p), a = t.search(/\S/); if (a === -1) return result === null; return result !== null && Object.keys(result).length === 2 && result.left === p + a && result.right === p + t.replace(/\s+$/, '').length - 1; } },
});
