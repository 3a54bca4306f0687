'use strict';
const { T } = require('../lib/types');
const { forall, macro, rec, errName, code, sub, concat, ncalls, arg, nargs, ret, threw, exc, same, kindOf, tag, matches, uri, utc, own, inst } = require('../lib/speclib');
const D = 'packages/cookie/src/';
const C = module.exports = [];

// ---- createCookie -------------------------------------------------------
// text that can stand in one header line: no line breaks, no control characters
const clean = macro('clean', s => matches(/^[\u0009\u0020-\u007e\u0080-\u00ff]+$/, s));
const isStr = macro('isStr', v => kindOf(v) === 'string');
const NAME = () => T.str({ alphabet: 'ab=; \r\n\u0000\u00ff\u0100\t' });
const absent = T.const(undefined);
// one part of the text: what stands behind the pair for an option
const maxAgeText = macro('maxAgeText', v => (v === undefined ? '' : kindOf(v) === 'int' ? '; Max-Age=' + v : Number.isFinite(v) ? '; Max-Age=' + Math.floor(v) : '; Max-Age=0'));
const lineText = macro('lineText', (pre, v) => (isStr(v) && clean(v) ? '; ' + pre + '=' + v : ''));
const expiresText = macro('expiresText', v => (tag(v) === 'Date' ? '; Expires=' + utc(v) : ''));
const flagText = macro('flagText', (pre, v) => (v === true ? '; ' + pre : ''));
const siteText = macro('siteText', v => (v === true ? '; SameSite=Strict' : isStr(v) ? (v.toLowerCase() === 'lax' ? '; SameSite=Lax' : v.toLowerCase() === 'strict' ? '; SameSite=Strict' : v.toLowerCase() === 'none' ? '; SameSite=None' : '') : ''));
const pairText = macro('pairText', (n, v) => n + '=' + v);
const create = (id, opts, expect, requires) => C.push({
    id: 'create' + id, property: 'C01', file: D + 'cookie/create.ts', keepUndef: true,
    params: { name: NAME(), value: NAME(), options: opts }, requires,
    ensures: {
        'only-text-that-fits-in-a-header': ({ name, value }) => clean(name) && clean(uri(value)),
        'the-pair-and-the-given-attributes': expect,
    },
    throws: { 'refused-text': ({ name, value, error }) => (errName(error) === 'TypeError' && !clean(name)) || errName(error) === 'URIError' || !clean(uri(value)) },
});
create('Plain', T.or(absent, T.const(null), T.rec({})), ({ name, value, result }) => result === pairText(name, uri(value)));
create('MaxAge', T.rec({ maxAge: T.or(absent, T.int(), T.fp(), T.str(), T.const(null), T.bool()) }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + maxAgeText(options.maxAge));
create('Domain', T.rec({ domain: T.prim() }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + lineText('Domain', options.domain));
create('Path', T.rec({ path: T.prim() }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + lineText('Path', options.path));
create('Expires', T.rec({ expires: T.or(T.date(), T.prim()) }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + expiresText(options.expires));
create('Flags', T.rec({ httpOnly: T.any(), secure: T.any() }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + flagText('HttpOnly', options.httpOnly) + flagText('Secure', options.secure));
create('SameSite', T.rec({ sameSite: T.prim() }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + siteText(options.sameSite));
// all of them together, in order
create('All', T.rec({ maxAge: T.int(), domain: NAME(), path: NAME(), expires: T.date(), httpOnly: T.const(true), secure: T.const(true), sameSite: T.oneOf('lax', true) }), ({ name, value, options, result }) => result === pairText(name, uri(value)) + maxAgeText(options.maxAge) + lineText('Domain', options.domain) + lineText('Path', options.path) + expiresText(options.expires) + flagText('HttpOnly', options.httpOnly) + flagText('Secure', options.secure) + siteText(options.sameSite));
// the value as the given encoder makes it
C.push({
    id: 'createEncode', property: 'C01', file: D + 'cookie/create.ts', keepUndef: true,
    params: { name: NAME(), value: T.tok(), encode: T.cb({ arity: 'any', ret: NAME() }) }, drive: '(name, value, encode) => createCookie(name, value, { encode })', uses: { createCookie: D + 'cookie/create.ts' },
    ensures: {
        'encoded-once-with-the-value': ({ encode, value }) => ncalls(encode) === 1 && same(arg(encode, 0, 0), value),
        'only-text-that-fits-in-a-header': ({ name, encode }) => clean(name) && clean(ret(encode, 0)),
        'the-pair': ({ name, encode, result }) => result === pairText(name, ret(encode, 0)),
    },
    throws: { 'refused-text-or-encoder': ({ name, encode, error }) => encode.length === 0 ? errName(error) === 'TypeError' : !clean(name) || ncalls(encode) !== 1 || threw(encode, 0) || !clean(ret(encode, 0)) },
});
C.push({
    id: 'createRefused', property: 'C01', uses: { createCookie: D + 'cookie/create.ts' }, drive: '(name, encode) => createCookie(name, "v", { encode })', keepUndef: true,
    params: { name: T.prim(), encode: T.prim() }, requires: ({ name, encode }) => kindOf(name) !== 'string' || encode !== undefined,
    ensures: { 'never-accepted': () => false }, throws: { 'refused': ({ error }) => errName(error) === 'TypeError' },
});

// ---- splitSetCookie -----------------------------------------------------
const white = macro('white', (s, i) => (code(s, i) >= 9 && code(s, i) <= 13) || code(s, i) === 32 || code(s, i) === 160 || code(s, i) === 5760 || (code(s, i) >= 8192 && code(s, i) <= 8202) || code(s, i) === 8232 || code(s, i) === 8233 || code(s, i) === 8239 || code(s, i) === 8287 || code(s, i) === 12288 || code(s, i) === 65279);
const mark = macro('mark', (s, i) => code(s, i) === 61 || code(s, i) === 59 || code(s, i) === 44);
// the first character from i on that is not white space / that is one of = ; , (or the end)
const wsEnd = rec('wsEnd', ['str', 'int'], 'int', (s, i) => (i >= s.length || i < 0 || !white(s, i) ? i : wsEnd(s, i + 1)));
const nextMark = rec('nextMark', ['str', 'int'], 'int', (s, i) => (i >= s.length || i < 0 || mark(s, i) ? i : nextMark(s, i + 1)));
// a comma with the name of a further cookie behind it: name, then an equals sign
const sepAt = macro('sepAt', (s, i) => code(s, i) === 44 && nextMark(s, wsEnd(s, i + 1)) < s.length && code(s, nextMark(s, wsEnd(s, i + 1))) === 61);
const nSep = rec('nSep', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : nSep(s, i - 1) + (sepAt(s, i - 1) ? 1 : 0)));
const pieceAt = rec('pieceAt', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : sepAt(s, i - 1) ? wsEnd(s, i) : pieceAt(s, i - 1)));
C.push({
    id: 'splitSetCookie', property: 'C01', uses: { splitSetCookie: D + 'setCookie/split.ts' }, drive: 'cookie => splitSetCookie(cookie)', bounded: 'texts of up to 40 characters made of names, separators and white space', runMs: 2000,
    params: { cookie: { ...T.str(), gen: (r, c) => r.bool(0.25) ? T.str({ alphabet: 'ab=;, ,=\t\u00a0' }).gen(r, c) : Array.from({ length: r.int(14) }, () => r.pick(['a', 'sid', '=', '=', ';', ',', ', ', ' ', '; Expires=Wed, 21 Oct 2015 07:28:00 GMT', '\t', '\u00a0', '=v', 'b=1, c=2', ' ,', '; Path=/'])).join('') } },
    ensures: {
        'one-entry-for-every-cookie': ({ cookie, result }) => result.length === (cookie.length === 0 ? 0 : nSep(cookie, cookie.length) + 1),
        'each-cookie-as-it-is-in-the-text': ({ cookie, result }) => forall(0, cookie.length, k => !sepAt(cookie, k) || result[nSep(cookie, k)] === sub(cookie, pieceAt(cookie, k), k - pieceAt(cookie, k))),
        'the-rest-last': ({ cookie, result }) => cookie.length === 0 || result[nSep(cookie, cookie.length)] === sub(cookie, pieceAt(cookie, cookie.length), cookie.length - pieceAt(cookie, cookie.length)),
    },
});
// several attributes at once, present or not
C.push({
    id: 'createMix', property: 'C01', uses: { createCookie: D + 'cookie/create.ts' }, drive: '(name, value, options) => createCookie(name, value, options)', bounded: 'random mixes of all attributes', runMs: 1000,
    params: { name: NAME(), value: NAME(), options: T.rec({ maxAge: T.optional(T.or(T.int(), T.fp())), domain: T.optional(NAME()), path: T.optional(NAME()), expires: T.optional(T.date()), httpOnly: T.optional(T.bool()), secure: T.optional(T.bool()), sameSite: T.optional(T.oneOf('lax', 'STRICT', 'None', true, false, 'x')), priority: T.optional(T.tok()) }) },
    ensures: { 'the-pair-and-the-given-attributes': ({ name, value, options, result }) => clean(name) && result === pairText(name, encodeURIComponent(value)) + maxAgeText(options.maxAge) + lineText('Domain', options.domain) + lineText('Path', options.path) + expiresText(options.expires) + flagText('HttpOnly', options.httpOnly) + flagText('Secure', options.secure) + siteText(options.sameSite) },
    throws: { 'refused-text': ({ name, value, error }) => error.name === 'URIError' || !clean(name) || value === '' },
});

// ---- parseCookie --------------------------------------------------------
// the pairs of a text, read plainly: split at semicolons, then at the first equals sign; flags are left out
const unquote = v => { v = v.trim(); return v.startsWith('"') && v.endsWith('"') ? v.slice(1, -1).trim() : v; };
const pairsOf = s => { const o = {}; for (const part of s.split(';')) { const i = part.indexOf('='); if (i >= 0) o[part.slice(0, i).trim()] = unquote(part.slice(i + 1)); } return o; };
const COOKIE = () => ({ ...T.str(), gen: (r, c) => r.bool(0.2) ? T.str({ alphabet: 'ab=; "\n' }).gen(r, c) : Array.from({ length: r.int(10) }, () => r.pick(['a', 'sid', '=', '=', ';', '; ', ' ', '"', '"v w"', 'x=1; y=2', '\n', '=v', 'flag', ';;'])).join('') });
C.push({
    id: 'parseCookie', property: 'C01', uses: { parseCookie: D + 'cookie/parse.ts' }, drive: '(cookie, decode) => parseCookie(cookie, decode)', bounded: 'texts of up to 40 characters made of names, values, quotes and separators', runMs: 2000,
    params: { cookie: COOKIE(), decode: T.or(absent, T.cb({ arity: 1, ret: T.or(T.str(), T.int()), throws: false })) },
    ensures: {
        'every-pair-with-its-value': ({ cookie, decode, result }) => decode !== undefined || JSON.stringify(result) === JSON.stringify(pairsOf(cookie)),
        'decoder-told-each-value-once-and-believed': ({ cookie, decode, result }) => { if (!decode) return true; const want = cookie.split(';').filter(x => x.includes('=')); return ncalls(decode) === want.length && want.every((x, k) => arg(decode, k, 0) === unquote(x.slice(x.indexOf('=') + 1)) && typeof ret(decode, k) === 'string') && want.every((x, k) => want.slice(k + 1).some(y => y.slice(0, y.indexOf('=')).trim() === x.slice(0, x.indexOf('=')).trim()) || result[x.slice(0, x.indexOf('=')).trim()] === ret(decode, k)) && Object.keys(result).length <= want.length; },
        'only-text-with-a-pair': ({ cookie }) => cookie.includes('='),
    },
    throws: { 'no-pair-or-no-text-from-the-decoder': ({ cookie, decode, error }) => error.name === 'TypeError' && (!cookie.includes('=') || (!!decode && ncalls(decode) > 0 && typeof ret(decode, ncalls(decode) - 1) !== 'string')) },
});
C.push({
    id: 'cookieRoundTrip', property: 'C01', uses: { createCookie: D + 'cookie/create.ts', parseCookie: D + 'cookie/parse.ts' }, drive: '(names, values) => parseCookie(names.map((n, k) => createCookie(n, values[k] || "")).join("; "), decodeURIComponent)', bounded: 'up to 6 pairs of random names and values', runMs: 1000,
    params: { names: { ...T.arr(T.str()), gen: r => Array.from({ length: 1 + r.int(6) }, () => r.pick(['a', 'sid', 'b', 'c', 'x-y', '_ga'])) }, values: { ...T.arr(T.str()), gen: (r, c) => Array.from({ length: 6 }, () => T.str().gen(r, c).replace(/[\ud800-\udfff]/g, '') || 'v') } },
    ensures: { 'values-come-back': ({ names, values, result }) => names.every((n, k) => names.indexOf(n, k + 1) >= 0 || result[n] === values[k]) && Object.keys(result).length === new Set(names).size },
});
// ---- parseSetCookie, joinSetCookie --------------------------------------
C.push({
    id: 'parseSetCookie', property: 'C01', uses: { parseSetCookie: D + 'setCookie/parse.ts', createCookie: D + 'cookie/create.ts', joinSetCookie: D + 'setCookie/join.ts' }, bounded: 'up to 5 cookies made by createCookie with random attributes', runMs: 1000,
    drive: '(list, decode, map) => { const made = list.map(x => createCookie(x.name, x.value, x.options)), parsed = parseSetCookie(made, { decode, map }); return { made, parsed, joined: joinSetCookie(parsed) }; }',
    params: {
        list: T.arr(T.rec({ name: { ...T.str(), gen: r => r.pick(['a', 'sid', 'b', '_ga']) }, value: { ...T.str(), gen: (r, c) => T.str().gen(r, c).replace(/[\ud800-\udfff]/g, '') || 'v=1' }, options: T.rec({ maxAge: T.optional(T.nat()), domain: T.optional(T.oneOf('x.org', 'a.b')), path: T.oneOf('/', '/p', '/a=b', '/x?q=1=2'), expires: T.optional({ ...T.date(), gen: r => new Date(r.int(2 ** 31) * 1000) }), httpOnly: T.optional(T.const(true)), secure: T.optional(T.const(true)), sameSite: T.optional(T.oneOf('Lax', 'Strict', 'None')) }) }), { maxLen: 5 }),
        decode: T.bool(), map: T.bool(),
    },
    requires: ({ list }) => list.length > 0,
    ensures: {
        'each-cookie-with-its-attributes': ({ list, decode, map, result }) => (map ? [...new Map(list.map(x => [x.name, x])).values()] : list).every((x, k) => { const p = map ? result.parsed[x.name] : result.parsed[k], o = x.options, want = { name: x.name, value: decode ? x.value : encodeURIComponent(x.value), path: o.path, ...('maxAge' in o && { maxAge: o.maxAge }), ...('domain' in o && { domain: o.domain }), ...('expires' in o && { expires: o.expires }), ...('httpOnly' in o && { httpOnly: true }), ...('secure' in o && { secure: true }), ...('sameSite' in o && { sameSite: o.sameSite }) }; return require('util').isDeepStrictEqual({ ...p }, want); }) && Object.keys(result.parsed).length === (map ? new Set(list.map(x => x.name)).size : list.length),
        'joined-as-a-request-header': ({ result }) => result.joined === Object.values(result.parsed).map(x => x.name + '=' + x.value).join('; '),
    },
});
