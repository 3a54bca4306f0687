'use strict';
const { T } = require('../lib/types');
const { forall, implies, macro, rec, errName, code, sub, concat, ncalls, arg, threw, exc, same } = require('../lib/speclib');
const D = 'packages/fs/src/';
const C = module.exports = [];
// readline ends a line at CR, LF or CR LF; readlineFromCode at NEL, LS and PS as well
const eolT = macro('eolT', (s, k) => code(s, k) === 10 || code(s, k) === 13);
const eolC = macro('eolC', (s, k) => code(s, k) === 10 || code(s, k) === 13 || code(s, k) === 133 || code(s, k) === 8232 || code(s, k) === 8233);
const crlf = macro('crlf', (s, k) => k > 0 && k < s.length && code(s, k) === 10 && code(s, k - 1) === 13);
const brkT = macro('brkT', (s, k) => eolT(s, k) && !crlf(s, k));
const brkC = macro('brkC', (s, k) => eolC(s, k) && !crlf(s, k));
// how many lines end before i, and where the line that i is in begins
const nlT = rec('nlT', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : nlT(s, i - 1) + (brkT(s, i - 1) ? 1 : 0)));
const nlC = rec('nlC', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : nlC(s, i - 1) + (brkC(s, i - 1) ? 1 : 0)));
const lsT = rec('lsT', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : eolT(s, i - 1) ? i : lsT(s, i - 1)));
const lsC = rec('lsC', ['str', 'int'], 'int', (s, i) => (i <= 0 ? 0 : eolC(s, i - 1) ? i : lsC(s, i - 1)));
const TEXT = () => T.str({ alphabet: 'ab \r\n\r\n\u2028\u2029\u0085\v' });
// what a list of lines says about the text before i
const state = t => t ? [
    ({ $i, chunk }) => !crlf(chunk, $i),
    ({ $i, chunk }) => lsT(chunk, $i) >= 0 && lsT(chunk, $i) <= $i,
    ({ $i, $a, chunk }) => $a.length === $i - lsT(chunk, $i),
    ({ $i, $a, chunk }) => concat($a) === sub(chunk, lsT(chunk, $i), $i - lsT(chunk, $i)),
    ({ $i, $s, chunk }) => $s === sub(chunk, lsT(chunk, $i), $i - lsT(chunk, $i)),
    ({ $i, $m, chunk }) => $m === lsT(chunk, $i),
] : [
    ({ $i, chunk }) => !crlf(chunk, $i),
    ({ $i, chunk }) => lsC(chunk, $i) >= 0 && lsC(chunk, $i) <= $i,
    ({ $i, $a, chunk }) => $a.length === $i - lsC(chunk, $i),
    ({ $i, $a, chunk }) => concat($a) === sub(chunk, lsC(chunk, $i), $i - lsC(chunk, $i)),
    ({ $i, $s, chunk }) => $s === sub(chunk, lsC(chunk, $i), $i - lsC(chunk, $i)),
    ({ $i, $m, chunk }) => $m === lsC(chunk, $i),
];
// told line by line: the callback comes third or takes the place of the encoding
const CB = () => T.cb({ arity: 1, ret: T.any() });
for (const nm of ['callback', 'encoding']) for (const t of [true, false]) {
    const id = (t ? 'readline' : 'readlineFromCode') + (nm === 'callback' ? '' : 'Second');
    const q = f => new Function('T', 'lsT', 'nlT', 'brkT', 'lsC', 'nlC', 'brkC', 'code', 'sub', 'concat', 'forall', 'ncalls', 'arg', 'threw', 'exc', 'same', 'return ' + String(f).replace(/\bcb\b/g, nm).replace(/\b(ls|nl|brk)\b(?=\()/g, `$1${t ? 'T' : 'C'}`))(T, lsT, nlT, brkT, lsC, nlC, brkC, code, sub, concat, forall, ncalls, arg, threw, exc, same);
    C.push({
        id, property: 'L01', file: `${D}${t ? 'readline' : 'readlineFromCode'}.ts`, keepUndef: true, engine: { units: true, cvcFirst: true },
        params: nm === 'callback' ? { chunk: TEXT(), encoding: T.const(undefined), callback: CB() } : { chunk: TEXT(), encoding: CB() },
        inv: [
            ...state(t),
            q(({ $i, chunk, cb }) => ncalls(cb) === nl(chunk, $i)),
            q(({ $i, chunk, cb }) => forall(0, $i, k => nl(chunk, k) >= 0 && (!brk(chunk, k) || nl(chunk, k) < ncalls(cb)))),
            q(({ $i, chunk, cb }) => forall(0, $i, k => !brk(chunk, k) || arg(cb, nl(chunk, k), 0) === sub(chunk, ls(chunk, k), k - ls(chunk, k)))),
            q(({ $i, chunk, cb }) => forall(0, $i, k => !brk(chunk, k) || arg(cb, nl(chunk, k), 1) === false)),
        ],
        ensures: {
            'one-call-for-every-line': q(({ chunk, cb }) => ncalls(cb) === nl(chunk, chunk.length) + 1),
            'no-list-as-well': nm === 'callback' ? ({ result }) => result === null : ({ result }) => result === null || result.length === 0,
            'each-line-as-it-is-in-the-text': q(({ chunk, cb }) => forall(0, chunk.length, k => !brk(chunk, k) || arg(cb, nl(chunk, k), 0) === sub(chunk, ls(chunk, k), k - ls(chunk, k)))),
            'not-done-before-the-end': q(({ chunk, cb }) => forall(0, chunk.length, k => !brk(chunk, k) || arg(cb, nl(chunk, k), 1) === false)),
            'the-rest-last': q(({ chunk, cb }) => arg(cb, nl(chunk, chunk.length), 0) === sub(chunk, ls(chunk, chunk.length), chunk.length - ls(chunk, chunk.length)) && arg(cb, nl(chunk, chunk.length), 1) === true),
        },
        throws: { 'exception-is-the-callbacks': q(({ cb, error }) => ncalls(cb) > 0 && threw(cb, ncalls(cb) - 1) && same(error, exc(cb, ncalls(cb) - 1))) },
    });
}

// without a callback the lines come back as a list
for (const t of [true, false]) {
    const q = f => new Function('lsT', 'nlT', 'brkT', 'lsC', 'nlC', 'brkC', 'sub', 'forall', 'return ' + String(f).replace(/\b(ls|nl|brk)\b(?=\()/g, `$1${t ? 'T' : 'C'}`))(lsT, nlT, brkT, lsC, nlC, brkC, sub, forall);
    C.push({
        id: t ? 'readlineList' : 'readlineFromCodeList', property: 'L01', file: `${D}${t ? 'readline' : 'readlineFromCode'}.ts`, keepUndef: true, engine: { units: true, cvcFirst: true },
        params: { chunk: TEXT(), encoding: T.or(T.const(undefined), T.const(null), T.const('utf8')) },
        inv: [
            ...state(t),
            q(({ $i, $a, chunk }) => $a.length === nl(chunk, $i)),
            q(({ $i, $a, chunk }) => forall(0, $i, k => nl(chunk, k) >= 0 && (!brk(chunk, k) || nl(chunk, k) < $a.length))),
            q(({ $i, $a, chunk }) => forall(0, $i, k => !brk(chunk, k) || $a[nl(chunk, k)] === sub(chunk, ls(chunk, k), k - ls(chunk, k)))),
        ],
        ensures: {
            'one-entry-for-every-line': q(({ chunk, result }) => result.length === nl(chunk, chunk.length) + 1),
            'each-line-as-it-is-in-the-text': q(({ chunk, result }) => forall(0, chunk.length, k => !brk(chunk, k) || result[nl(chunk, k)] === sub(chunk, ls(chunk, k), k - ls(chunk, k)))),
            'the-rest-last': q(({ chunk, result }) => result[nl(chunk, chunk.length)] === sub(chunk, ls(chunk, chunk.length), chunk.length - ls(chunk, chunk.length))),
        },
    });
    const fn = t ? 'readline' : 'readlineFromCode';
    C.push({
        id: fn + 'Buffer', property: 'L01', uses: { [fn]: `${D}${fn}.ts` }, bounded: 'buffers of up to 40 random bytes or encoded characters, four encodings, all three forms of the call', runMs: 1500,
        drive: `(text, raw, encoding, form) => {
            const chunk = raw ? Buffer.from(text, 'latin1') : Buffer.from(text, encoding || 'utf8'), before = chunk.toString('hex'), calls = [];
            const cb = (a, b) => { calls.push([a, b]); };
            const result = form === 0 ? ${fn}(chunk, encoding) : form === 1 ? ${fn}(chunk, encoding, cb) : ${fn}(chunk, cb);
            return { result, calls, text: chunk.toString(form === 2 ? 'utf8' : encoding || 'utf8'), same: before === chunk.toString('hex') };
        }`,
        params: { text: TEXT(), raw: T.bool(), encoding: { ...T.tok(), gen: r => r.pick([undefined, null, 'utf8', 'latin1', 'utf16le', 'hex']) }, form: { ...T.tok(), gen: r => r.int(3) } },
        ensures: {
            'the-lines-of-the-decoded-text': ({ form, result }) => { const want = result.text.split(t ? /\r\n|\r|\n/ : /\r\n|[\r\n\u2028\u2029\u0085]/); return form === 0 ? JSON.stringify(result.result) === JSON.stringify(want) : JSON.stringify(result.calls) === JSON.stringify(want.map((l, k) => [l, k === want.length - 1])); },
            'the-buffer-is-left-alone': ({ result }) => result.same,
        },
    });
    C.push({
        id: fn + 'Other', property: 'L01', file: `${D}${fn}.ts`, keepUndef: true,
        params: { chunk: T.or(T.const(undefined), T.const(null), T.int(), T.bool(), T.arr(T.str()), T.rec({ length: T.nat() })) },
        ensures: { 'never-accepted': () => false }, throws: { 'refused': ({ error }) => errName(error) === 'TypeError' },
    });
}
C.push({
    id: 'stripBOM', property: 'L01', file: D + 'stripBOM.ts', params: { content: T.str({ alphabet: '\ufeffab' }) }, engine: { cvcFirst: true },
    ensures: { 'one-mark-at-the-start-removed': ({ content, result }) => (content.length > 0 && code(content, 0) === 65279 ? result === sub(content, 1, content.length - 1) : result === content) },
});
