'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, own, errName, swapAll, rec, kindOf, matches, sub, code, isInt } = require('../lib/speclib');
const Ar = 'packages/array/src/', Nu = 'packages/number/src/', Pa = 'packages/path/src/', C = module.exports = [];

// ---- A05: arrays made from something else --------------------------------
const OPT = () => T.opt(T.rec({ allowNull: T.optional(T.bool()), allowUndefined: T.optional(T.bool()) }));
const allowed = macro('allowed', (o, k) => o !== undefined && own(o, k) && o[k]);
C.push({
    id: 'toArrayOne', property: 'A05', file: Ar + 'convert/toArray.ts', params: { value: T.prim(), options: OPT() },
    ensures: {
        'nothing-gives-an-empty-list': ({ value, options, result }) => (result.length === 0) === ((value === null && !allowed(options, 'allowNull')) || (value === undefined && !allowed(options, 'allowUndefined'))),
        'anything-else-alone-in-a-list': ({ value, result }) => result.length === 0 || (result.length === 1 && same(result[0], value)),
    },
});
C.push({
    id: 'toArrayList', property: 'A05', file: Ar + 'convert/toArray.ts', params: { value: T.arr(T.tok()), options: OPT() },
    ensures: { 'an-array-is-itself': ({ value, result }) => result === value },
});
const nestGen = (r, d = 0, leafless = 0.1) => Array.from({ length: r.bool(leafless) ? 0 : r.int(5) }, () => d < 4 && r.bool(0.45) ? nestGen(r, d + 1, leafless) : r.pick([0, 1, 'a', '', null, undefined, NaN, { a: 1 }, 'bc', -0]));
const evenGen = (r, d) => Array.from({ length: 1 + r.int(3) }, () => d <= 1 ? r.bool(0.08) ? [] : r.int(9) : r.bool(0.06) ? r.int(9) : r.bool(0.06) ? [] : evenGen(r, d - 1));
const NEST = () => ({ ...T.tok(), gen: r => r.bool(0.5) ? nestGen(r) : evenGen(r, 1 + r.int(4)) });
const Sames = (a, b) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
const leaves = v => { const o = [], st = [[v, 0]]; while (st.length) { const [a, k] = st.pop(); if (k < a.length) { st.push([a, k + 1]); if (Array.isArray(a[k])) st.push([a[k], 0]); else o.push(a[k]); } } return o; };
const depths = (v, d = 1, leaf = [], arr = []) => { arr.push(d); for (const x of v) if (Array.isArray(x)) depths(x, d + 1, leaf, arr); else leaf.push(d); return { leaf, arr }; };
C.push({
    id: 'flatten', property: 'A05', file: Ar + 'flat.ts', bounded: 'lists nested up to 5 deep, up to 5 items each', runMs: 2500, runMax: 20000,
    params: { value: NEST() }, ensures: { 'every-leaf-in-order': ({ value, result }) => Sames(result, leaves(value)) },
});
C.push({
    id: 'arrayDepths', property: 'A05', uses: { deepest: Ar + 'maxRecursionDepth.ts', level: Ar + 'dimension/dimensionLevel.ts', multi: Ar + 'dimension/isMultiDimensional.ts' }, bounded: 'lists nested up to 5 deep, up to 5 items each', runMs: 2500, runMax: 20000,
    drive: 'value => [deepest(value), deepest(value, false), level(value), multi(value), [2, 3, 4, 5].map(n => multi(value, n)), [2, 3, 4, 5].map(n => multi(value, n, true))]',
    params: { value: NEST() },
    ensures: {
        'the-deepest-list': ({ value, result }) => result[0] === Math.max(...depths(value).arr),
        'the-deepest-leaf': ({ value, result }) => result[1] === Math.max(0, ...depths(value).leaf),
        'as-deep-as-every-leaf': ({ value, result }) => { const { leaf, arr } = depths(value); return result[2] === (leaf.length ? Math.min(...leaf) : Math.max(...arr)); },
        'more-than-one-dimension': ({ result }) => result[3] === result[2] > 1,
        'at-least-or-exactly-that-many': ({ result }) => [2, 3, 4, 5].every((n, k) => result[4][k] === result[2] >= n && result[5][k] === (result[2] === n)),
    },
});
C.push({
    id: 'uniqueValues', property: 'A05', keepUndef: true, file: Ar + 'uniqueFromPrimitive.ts', bounded: 'up to 4 arguments, values and lists of up to 6', runMs: 2500, runMax: 20000,
    params: { args: { ...T.arr(T.tok()), rest: true, gen: r => Array.from({ length: r.int(5) }, () => { const v = () => r.pick([0, -0, 1, NaN, 'a', 'b', '', '0', null, undefined, true, 1n, 2, 3, Symbol.iterator]); return r.bool(0.6) ? Array.from({ length: r.int(7) }, v) : v(); }) } },
    ensures: { 'each-value-once-as-first-met': ({ args, result }) => { const o = []; for (const x of args.flatMap(a => a)) if (!o.some(y => x === y || (x !== x && y !== y))) o.push(x); return o.length === result.length && o.every((x, i) => x === result[i] || (x !== x && result[i] !== result[i])); } },
});
C.push({
    id: 'arrayLike', property: 'A05', file: Ar + 'fromArrayLike.ts', bounded: 'arguments objects, texts, typed arrays and objects with a length of up to 8', runMs: 1500, runMax: 10000,
    params: { value: { ...T.tok(), gen: r => { const n = r.int(9), xs = Array.from({ length: n }, () => r.int(5)); return r.pick([() => Object.assign({ length: n }, xs), () => xs.join(''), () => Uint8Array.from(xs), () => (function () { return arguments; })(...xs), () => xs, () => ({ length: n, ...(n && { [n - 1]: 7 }) })])(); } } },
    ensures: { 'an-array-of-the-same-items': ({ value, result }) => Array.isArray(result) && result !== value && result.length === value.length && result.every((x, i) => Object.is(x, value[i])) && Object.keys(result).every(k => k in Object(value)) && Object.keys(value).filter(k => k !== 'length').every(k => k in result) },
});
C.push({
    id: 'toObjectKeys', property: 'A05', uses: { toObject: Ar + 'convert/toObject.ts' }, bounded: 'lists of up to 14 items with repeated keys', runMs: 1500, runMax: 10000,
    drive: 'list => { const seen = []; const result = toObject(list, x => { seen.push(["k", x]); return x.key; }, x => { seen.push(["v", x]); return x.value; }); return { result, seen }; }',
    params: { list: { ...T.tok(), gen: r => Array.from({ length: r.int(14) }, (_, i) => ({ key: r.pick(['a', 'b', '0', '10', '2', '', 'constructor', 'toString', 'length', 'x y', 7]), value: r.pick([i, undefined, null, 'v' + i, { i }]) })) } },
    ensures: {
        'the-last-of-each-key': ({ list, result }) => { const m = new Map(list.map(x => [String(x.key), x.value])), o = result.result; return Object.getPrototypeOf(o) === Object.prototype && Object.keys(o).length === m.size && [...m].every(([k, v]) => Object.hasOwn(o, k) && o[k] === v); },
        'each-item-asked-once-in-order': ({ list, result }) => result.seen.length === 2 * list.length && ['k', 'v'].every(w => Sames(result.seen.filter(x => x[0] === w).map(x => x[1]), list)),
    },
});
const IDS = ['a', 'b', 'c', 1, 2, 3, 'constructor', 'toString', 'hasOwnProperty', '__proto__', 10, 'x'];
const NOTREE = Symbol('threw');
C.push({
    id: 'tree', property: 'A05', uses: { toTree: Ar + 'convert/toTree.ts' }, bounded: 'up to 9 items in any order with unique ids, roots, orphans and cycles, each way to store the data', runMs: 4000, runMax: 20000,
    drive: '(items, mode) => { const get = (x, k) => mode.nested ? x.n[k] : x[k]; const o = { ...(mode.data !== undefined && { dataField: mode.data }), ...(mode.nested && { id: "n.id", parentId: "n.up" }), ...(!mode.nested && { parentId: "up" }), ...(mode.children && { childrenField: mode.children }), ...(mode.assign && { assign: true }), ...(mode.strict && { throwIfOrphans: true }), ...(mode.roots && { rootParentIds: mode.roots }) }; const copies = items.map(x => ({ ...x })); try { return { out: toTree(copies, o), copies }; } catch (error) { return { error, copies }; } }',
    params: {
        items: { ...T.tok(), gen: r => { const ids = IDS.slice().sort(() => r.next() - 0.5).slice(0, r.int(10)); return ids.map((id, i) => { const up = r.bool(0.3) ? r.pick([null, undefined, '', 0]) : r.bool(0.1) ? 'gone' : r.pick(r.bool(0.9) ? ids.slice(0, i + 1).concat(ids.slice(i + 1, i + 2)) : ids); return { id, up: up === id && r.bool(0.8) ? null : up, n: { id, up: up === id ? null : up }, v: 'v' + i }; }); } },
        mode: { ...T.tok(), gen: r => ({ data: r.pick([undefined, undefined, 'row', null]), nested: r.bool(0.3), children: r.pick([undefined, undefined, 'kids']), assign: r.bool(0.3), strict: r.bool(0.3), roots: r.bool(0.15) ? { gone: true, 0: true } : undefined }) },
    },
    ensures: {
        'roots-and-children-in-order-or-refused': ({ items, mode, result }) => {
            const id = x => mode.nested ? x.n.id : x.id, up = x => mode.nested ? x.n.up : x.up, roots = mode.roots || { '': true, 0: true }, isRoot = p => p == null || (Object.hasOwn(roots, p) && roots[p]), kids = mode.children || 'children', data = mode.data === undefined ? 'data' : mode.data;
            const known = new Set(items.map(x => String(id(x)))), byUp = new Map();
            for (const x of items) { const k = isRoot(up(x)) ? '\0' : String(up(x)); byUp.set(k, (byUp.get(k) || []).concat(items.indexOf(x))); }
            const reach = new Set(); const go = k => { for (const i of byUp.get(k) || []) if (!reach.has(i)) { reach.add(i); go(String(id(items[i]))); } }; go('\0');
            if (items.some(x => Object.hasOwn(roots, id(x)) && roots[id(x)])) return result.error instanceof Error;
            if (mode.strict && items.some(x => !isRoot(up(x)) && !known.has(String(up(x))))) return result.error instanceof Error;
            if (mode.strict && reach.size < items.length) return result.error instanceof Error;
            if (result.error) return false;
            const sameNode = (node, i) => {
                const src = items[i], want = (byUp.get(String(id(src))) || []);
                const ok = data ? node[data] === result.copies[i] && Object.keys(node).length === 2 : (mode.assign ? node === result.copies[i] : node !== result.copies[i]) && Object.keys(src).every(k => node[k] === src[k]) && Object.keys(node).length === Object.keys(src).length + 1;
                return ok && Array.isArray(node[kids]) && node[kids].length === want.length && node[kids].every((c, k) => sameNode(c, want[k]));
            };
            const top = byUp.get('\0') || [];
            return result.out.length === top.length && result.out.every((n, k) => sameNode(n, top[k]));
        },
        'the-items-stay-as-they-are': ({ items, mode, result }) => result.copies.every((x, i) => Object.keys(items[i]).every(k => x[k] === items[i][k]) && (Object.keys(x).length === Object.keys(items[i]).length || (mode.assign && mode.data === null))),
    },
});
const WORDS = () => ({ ...T.tok(), gen: r => Array.from({ length: r.bool(0.1) ? r.int(60) : r.int(12) }, () => r.pick(['a', 'b', 'ab', 'abc', 'B', 'A', 'z', 'aa', '10', '9', 'this', 'is', '\u4e2d', '\u56fd', '\u963f', '\u00e9', 'e', 'f', 'Zed', 'b\u00e4', 'a b']) + (r.bool(0.2) ? r.pick(['', 'x', 'y', '1']) : '')) });
const perm = (a, b) => { const s = x => x.slice().sort().join('\0'); return a.length === b.length && s(a) === s(b); };
C.push({
    id: 'sortings', property: 'A05', uses: { eng: Ar + 'sort/sortByEng.ts', initials: Ar + 'sort/sortByEngInitials.ts', words: Ar + 'sort/sortWords.ts', lengths: Ar + 'sort/sortToIndexes.ts' }, bounded: 'up to 60 words, Latin and Chinese, with repetitions', runMs: 4000, runMax: 10000,
    drive: 'list => { const f = (g, back) => { const a = [...list]; const r = g(a, back); return { r, inPlace: r === a }; }; return { up: [f(eng), f(initials), f(words)], down: [f(eng, true), f(initials, true), f(words, true)], lengths: lengths([...list]) }; }',
    params: { list: WORDS() },
    ensures: {
        'the-same-words': ({ list, result }) => [...result.up, ...result.down].every(x => perm(list, x.r)),
        'in-the-order-of-their-characters': ({ result }) => result.up[0].r.every((x, i, a) => !i || a[i - 1] <= x) && result.down[0].r.every((x, i, a) => !i || a[i - 1] >= x),
        'in-the-order-of-their-first-characters-and-otherwise-as-before': ({ list, result }) => [['up', 1], ['down', -1]].every(([w, s]) => { const want = list.map((x, i) => [x, i]).sort((a, b) => s * (a[0].charCodeAt(0) - b[0].charCodeAt(0)) || a[1] - b[1]).map(x => x[0]); return Sames(result[w][1].r, want); }),
        'in-the-order-of-the-language': ({ result }) => result.up[2].r.every((x, i, a) => !i || a[i - 1].localeCompare(x) <= 0) && result.down[2].r.every((x, i, a) => !i || a[i - 1].localeCompare(x) >= 0),
        'the-places-in-the-order-of-the-lengths': ({ list, result }) => Sames(result.lengths, list.map((x, i) => i).sort((a, b) => list[a].length - list[b].length || a - b)),
    },
});

// ---- N02: numbers as text ---------------------------------------------------
C.push({
    id: 'numberText', property: 'N02', uses: { text: Nu + 'stringify.ts' }, drive: 'value => [text(value), Object.is(value, -0), String(value)]', params: { value: T.num() },
    ensures: { 'minus-zero-keeps-its-sign': ({ value, result }) => result[1] ? result[0] === '-0' : result[0] === result[2] },
});
C.push({
    id: 'numberTextBack', property: 'N02', uses: { text: Nu + 'stringify.ts' }, drive: 'value => [Number(text(value)), text(value)]', bounded: 'random numbers over the whole range and special ones', runMs: 1500, runMax: 40000,
    params: { value: { ...T.tok(), gen: r => { const b = new DataView(new ArrayBuffer(8)); b.setUint32(0, Math.floor(r.next() * 2 ** 32)); b.setUint32(4, Math.floor(r.next() * 2 ** 32)); return r.pick([b.getFloat64(0), r.int(2000) - 1000, r.pick([0, -0, NaN, Infinity, -Infinity, 5e-324, 1e21, 1e-7]), r.next()]); } } },
    ensures: { 'read-back-as-the-same-number': ({ value, result }) => typeof result[1] === 'string' && Object.is(result[0], value) },
});
const PLAIN = () => ({ ...T.tok(), gen: r => { const digits = n => Array.from({ length: n }, () => r.int(10)).join(''), s = (r.bool(0.25) ? '-' : '') + digits(1 + r.int(r.bool(0.2) ? 18 : 8)) + (r.bool(0.5) ? '.' + digits(1 + r.int(6)) : ''); return r.bool(0.5) ? s : Number(s); } });
C.push({
    id: 'delimited', property: 'N02', file: Nu + 'withDelimiter.ts', bounded: 'plain decimal numbers of up to 18 + 6 digits, groups of 1 to 5', runMs: 2500, runMax: 40000,
    params: { value: PLAIN(), options: { ...T.tok(), gen: r => r.bool(0.3) ? undefined : { ...(r.bool(0.7) && { delimiter: r.pick([',', ' ', '_', "'", '', '$', '$&', '--', '\u00a0', '$1']) }), ...(r.bool(0.7) && { capacity: 1 + r.int(5) }) } } },
    requires: ({ value }) => !/e/.test(String(value)),
    ensures: {
        'groups-from-the-right-and-nothing-else': ({ value, options, result }) => { const d = options && 'delimiter' in options ? options.delimiter : ',', n = options && 'capacity' in options ? options.capacity : 3, [, sign, int, frac] = /^(-?)(\d+)(\.\d+)?$/.exec(String(value)); let o = ''; for (let i = 0; i < int.length; i++) o += (i && (int.length - i) % n === 0 ? d : '') + int[i]; return result === sign + o + (frac || ''); },
    },
});
C.push({
    id: 'delimitedRefused', property: 'N02', file: Nu + 'withDelimiter.ts', params: { value: T.oneOf(NaN, Infinity, -Infinity, 'abc', '1,2') },
    ensures: { never: () => false }, throws: { 'not-a-number': ({ error }) => errName(error) === 'TypeError' },
});
const DIG = '\u96f6\u58f9\u8d30\u53c1\u8086\u4f0d\u9646\u67d2\u634c\u7396', readWords = t => {
    const m = /^(\u8d1f?)((?:[^\u5143]+\u5143)?)(.*?)(\u6574?)$/.exec(t); if (!m) return null;
    let total = 0n, group = 0n, d = null;
    for (const c of m[2].replace('\u5143', '')) {
        if (DIG.includes(c)) { d = BigInt(DIG.indexOf(c)); continue; }
        const u = { '\u62fe': 10n, '\u4f70': 100n, '\u4edf': 1000n }[c], p = { '\u4e07': 10n ** 4n, '\u4ebf': 10n ** 8n, '\u5146': 10n ** 12n }[c];
        if (u) { if (!d) return null; group += d * u; d = null; } else if (p) { group += d || 0n; d = null; if (group === 0n || group > 9999n) return null; total += group * p; group = 0n; } else return null;
    }
    total += group + (d || 0n);
    let frac = 0n; const f = m[3];
    if (!/^\u96f6?(?:[\u96f6\u58f9\u8d30\u53c1\u8086\u4f0d\u9646\u67d2\u634c\u7396][\u89d2\u5206\u5398\u6beb])*$/.test(f)) return null;
    for (const [, a, u] of f.matchAll(/([\u96f6\u58f9\u8d30\u53c1\u8086\u4f0d\u9646\u67d2\u634c\u7396])([\u89d2\u5206\u5398\u6beb])/g)) frac += BigInt(DIG.indexOf(a)) * { '\u89d2': 1000n, '\u5206': 100n, '\u5398': 10n, '\u6beb': 1n }[u];
    return (m[1] ? -1n : 1n) * (total * 10000n + frac);
};
C.push({
    id: 'amountWords', property: 'N02', file: Nu + 'amount/amountInWords.ts', bounded: 'amounts of up to 14 digits and 4 decimals with many zeros', runMs: 3000, runMax: 40000,
    params: { amount: { ...T.tok(), gen: r => { const z = n => Array.from({ length: n }, () => r.bool(0.5) ? 0 : r.int(10)).join(''), s = (r.bool(0.2) ? '-' : '') + String(BigInt(z(1 + r.int(14)))) + (r.bool(0.5) ? '.' + z(1 + r.int(4)) : ''); return r.bool(0.6) ? s : r.bool(0.8) ? Number(s) : ' ' + s + ' '; } } },
    requires: ({ amount }) => !/e/.test(String(amount)),
    ensures: {
        'the-words-read-back-give-the-amount': ({ amount, result }) => { const [, s, i, f] = /^(-?)(\d+)(?:\.(\d+))?$/.exec(String(amount).trim()); return readWords(result) === (s ? -1n : 1n) * (BigInt(i) * 10000n + BigInt((f || '').padEnd(4, '0'))); },
        'whole-amounts-end-so': ({ amount, result }) => !/^-?\d+(\.0*)?$/.test(String(amount).trim()) || result.endsWith('\u5143\u6574'),
    },
});
C.push({
    id: 'amountWordsRefused', property: 'N02', file: Nu + 'amount/amountInWords.ts', bounded: 'amounts in other notations or with too many digits', runMs: 500, runMax: 500,
    params: { amount: { ...T.tok(), gen: r => r.pick([1e-7, 1e21, 1e14, '123456789012345', '1e3', '0x10', '1.23456', 'x', NaN, Infinity, '1,000', 5e-324, '0b11']) } },
    ensures: { never: () => false }, throws: { refused: ({ error }) => error instanceof TypeError },
});
C.push({
    id: 'byteSizes', property: 'N02', file: 'packages/string/src/bytes/formatBytes.ts', bounded: 'sizes from 0 to beyond the last unit, both systems, 0 to 3 decimals', runMs: 2500, runMax: 40000,
    params: { bytes: { ...T.tok(), gen: r => { const e = 10 ** (r.next() * 26), k = r.pick([1000, 1024]) ** r.int(9); return (r.bool(0.15) ? -1 : 1) * r.pick([Math.floor(e), k, k - 1, k + 1, Math.floor(k * 999.95), Math.floor(k * 1023.96), r.int(3000)]); } }, si: { ...T.tok(), gen: r => r.pick([true, false, undefined]) }, dp: { ...T.tok(), gen: r => r.pick([undefined, 0, 1, 2, 3]) } },
    ensures: {
        'the-size-to-the-decimals-asked': ({ bytes, si, dp, result }) => { const t = si === false ? 1024 : 1000, d = dp === undefined ? 1 : dp, m = /^(-?[\d.e+]+) (B|KB|MB|GB|TB|PB|EB|ZB|YB|KiB|MiB|GiB|TiB|PiB|EiB|ZiB|YiB)$/.exec(result); if (!m) return false; if (Math.abs(bytes) < t) return m[2] === 'B' && Number(m[1]) === bytes; const k = 'BKMGTPEZY'.indexOf(m[2][0]); if (k < 1 || m[2].length !== (si === false ? 3 : 2)) return false; const v = bytes / t ** k; return Math.abs(Number(m[1]) - v) <= 0.5 / 10 ** d * (1 + 1e-9) + Math.abs(v) * 1e-12 && (k === 8 || Math.abs(Number(m[1])) < t) && (/e/.test(m[1]) || (m[1].split('.')[1] || '').length === d) && (k === 1 || Math.abs(v) >= 1 - 1e-12 || Math.abs(Number(m[1])) >= 1); },
        'not-a-larger-unit-than-needed': ({ bytes, si, dp, result }) => { const t = si === false ? 1024 : 1000, d = dp === undefined ? 1 : dp, k = 'BKMGTPEZY'.indexOf(result.split(' ')[1][0]); return k < 2 || Math.abs(bytes) / t ** (k - 1) + 0.5 / 10 ** d >= t * (1 - 1e-12); },
    },
});

// ---- P01: paths ------------------------------------------------------------------
const PART = r => r.bool(0.12) ? r.pick(['COM', 'LPT', 'com']) + r.int(11) : r.pick(['a', 'b c', '..', '.', 'x.y', 'CON', 'con', 'COM1', 'LPT9x', 'xNUL', 'a.', 'a ', '', 'q?', 'w*', '\u4e2d', '.h', 'a'.repeat(r.pick([5, 40, 240, 247, 248, 249, 250])), 'AUXILIARY', '1', 'a:b', '"', '<', 'n\nl']);
const WIN = () => ({ ...T.str(), gen: r => r.bool(0.15) ? r.pick(['', '/', '/a/b', 'C:/a/b', '\\', '\\\\', '\\\\host\\share', '~', '~\\a', 'a\\b', '..\\', '.\\', 'C:', 'C:\\', '\\\\?\\', '\\\\?\\C:\\' + 'a'.repeat(300), 'C:\\' + 'a '.repeat(40), '..\\' + 'ab.'.repeat(60)]) : r.pick(['', '', '\\\\?\\']) + r.pick(['C:', 'c:', 'C:\\', '..', '.', '9:', '', 'CC:', 'z:']) + Array.from({ length: r.int(5) }, () => r.pick(['\\', '\\', '\\', '/', '\\\\']) + PART(r)).join('') + (r.bool(0.2) ? '\\' : '') });
const badPart = p => p === '' || p === '.' || /^(CON|PRN|AUX|NUL|COM[1-9]|LPT[1-9])$/.test(p) || /[<>:"/|?*]/.test(p) || (p !== '..' && /\.$/.test(p)) || / $/.test(p);
C.push({
    id: 'windowsPaths', property: 'P01', uses: { is: Pa + 'isWindowsPath.ts', long: Pa + 'isWindowsExtendedLengthPath.ts', unified: Pa + 'unifiedSeparator.ts', source: Pa + 'windowsPathSource.ts' }, drive: 'path => [is(path), is(path, true), long(path), unified(path)]', bounded: 'paths of up to 5 parts with reserved, forbidden and long names', runMs: 4000, runMax: 40000, hangMs: 4000,
    params: { path: WIN() },
    ensures: {
        'accepts-only-paths-with-no-bad-part': ({ path, result }) => !result[1] || (/^(?:(?:\\\\\?\\)?[a-zA-Z]:|\.{1,2})\\/.test(path) && path.length <= 32767 && path.replace(/^\\\\\?\\/, '').replace(/\\$/, '').split('\\').slice(1).every(p => !badPart(p))),
        'accepts-every-plain-path': ({ path, result }) => !/^(?:(?:\\\\\?\\)?[a-zA-Z]:|\.{1,2})(?:\\(?!CON|PRN|AUX|NUL|COM|LPT)[A-Za-z0-9_\u4e2d]+)+\\?$/.test(path) || (result[0] === (path.length <= 260 && path.split('\\').every(p => p.length <= 248)) && result[1]),
        'short-paths-are-long-paths-too': ({ path, result }) => !result[0] || (result[1] && path.length <= 260),
        'the-long-form-by-its-prefix': ({ path, result }) => result[2] === (result[0] && path.startsWith('\\\\?\\')),
        'all-separators-turned-but-in-the-long-form': ({ path, result }) => result[3] === (result[2] ? path : path.split('\\').join('/')),
    },
});
C.push({
    id: 'unifiedPath', property: 'P01', abstract: ['is'], uses: { is: Pa + 'isWindowsPath.ts', long: Pa + 'isWindowsExtendedLengthPath.ts', unified: Pa + 'unifiedSeparator.ts' }, drive: 'pathString => [is(pathString), long(pathString), unified(pathString)]', params: { pathString: WIN() },
    ensures: {
        'the-long-form-by-its-prefix': ({ pathString, result }) => result[1] === (result[0] && pathString.startsWith('\\\\?\\')),
        'itself-or-every-backslash-turned': ({ pathString, result }) => result[2] === (result[1] ? pathString : swapAll(/\\/, pathString, '/')),
    },
});
