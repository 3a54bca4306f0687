'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, own, prop, errName, kindOf, tag, truthy, inKey, protoOf, keysOf } = require('../lib/speclib');
const O = 'packages/object/src/', Ty = 'packages/types/src/', Ut = 'packages/util/src/', C = module.exports = [];
const nil = macro('nil', v => kindOf(v) === 'undefined' || kindOf(v) === 'null');
const isRefO = macro('isRefO', v => kindOf(v) === 'object' || kindOf(v) === 'array');

// ---- O04: copies without keys, sorted and lower-cased keys, prototypes -----
C.push({
    id: 'isPrototypeProperty', property: 'O04', file: O + 'property/isPrototypeProperty.ts', params: { object: T.any(), key: T.str() },
    ensures: { 'reachable-but-not-own': ({ object, key, result }) => result === (isRefO(object) && !own(object, key) && inKey(object, key)) },
});
C.push({
    id: 'isInstanceOf', property: 'O04', file: O + 'isInstanceOf.ts', params: { value: T.any(), class_: T.any({ gen: r => r.pick([Map, Set, Array, Object, Error, TypeError, Date, RegExp, Function, null, undefined, {}, Number, String]) }) },
    requires: ({ class_ }) => nil(class_) || isRefO(class_) || kindOf(class_) === 'function',
    ensures: { 'made-by-that-very-class': ({ value, class_, result }) => nil(value) || nil(class_) ? result === false : result === (protoOf(value) === prop(class_, 'prototype')) },
});
C.push({
    id: 'allAttrs', property: 'O04', file: Ut + 'allAttrs.ts', params: { value: T.any() },
    ensures: { 'every-own-key': ({ value, result }) => isRefO(value) || kindOf(value) === 'function' ? result.length === keysOf(value, 3).length && forall(0, result.length, k => same(result[k], keysOf(value, 3)[k])) : result.length === 0 },
});
const hasCtor = macro('hasCtor', v => !nil(v) && !nil(protoOf(v)) && !nil(prop(protoOf(v), 'constructor')));
C.push({
    id: 'constructorOf', property: 'O04', file: O + 'constructor.ts', params: { value: T.any() },
    requires: ({ value }) => nil(value) || nil(protoOf(value)) || kindOf(protoOf(value)) === 'object',
    ensures: {
        'nothing-without-one': ({ value, result }) => implies(!hasCtor(value), result === null),
        'what-the-prototype-names': ({ value, result }) => !hasCtor(value) || same(result, prop(protoOf(value), 'constructor')),
    },
});
const SYM = [Symbol('s'), Symbol.iterator];
const bag = (r, { proto = true, fixed = true, acc = true } = {}) => {
    const o = Object.create(proto ? r.pick([Object.prototype, Object.prototype, null, { inherited: 1 }, Array.prototype]) : Object.prototype);
    for (let i = r.int(8); i > 0; i--) {
        const k = r.pick(['a', 'b', 'c', 'B', 'A', 'constructor', '', '1', '10', '2', 'x y', '\u00c9', '\u00e9', ...SYM]), v = r.pick([1, 'x', null, undefined, NaN, { n: 1 }]);
        if (Object.hasOwn(o, k)) continue;
        Object.defineProperty(o, k, acc && r.bool(0.15) ? { get: () => v, enumerable: true, configurable: !fixed || r.bool(0.7) } : { value: v, enumerable: r.bool(0.85), writable: r.bool(0.8), configurable: !fixed || r.bool(0.75) });
    }
    return o;
};
const keyList = r => Array.from({ length: r.int(6) }, () => r.pick(['a', 'b', 'c', 'B', 'constructor', '1', 'gone', '', ...SYM]));
const sameProp = (a, b) => !!a && !!b && ['value', 'get', 'set', 'enumerable', 'writable', 'configurable'].every(k => Object.is(a[k], b[k]));
const desc = o => new Map(Reflect.ownKeys(o).map(k => [k, Object.getOwnPropertyDescriptor(o, k)]));
C.push({
    id: 'withoutKeys', property: 'O04', uses: { derive: O + 'derive.ts', deleteAttrs: O + 'deleteAttrs.ts' }, bounded: 'objects of up to 7 own properties of every kind, up to 5 keys', runMs: 2000, runMax: 20000,
    drive: '(obj, keys) => { const list = [...keys], before = Reflect.ownKeys(obj).map(k => [k, Object.getOwnPropertyDescriptor(obj, k)]); const copy = derive(obj, list); const after = Reflect.ownKeys(obj).map(k => [k, Object.getOwnPropertyDescriptor(obj, k)]); const gone = deleteAttrs(obj, list); return { before, after, copy, gone, list, obj, proto: Object.getPrototypeOf(obj) }; }',
    params: { obj: { ...T.tok(), gen: r => bag(r) }, keys: { ...T.tok(), gen: keyList } },
    ensures: {
        'a-copy-of-all-others': ({ keys, result }) => { const d = desc(result.copy), want = result.before.filter(([k]) => !keys.includes(k)); return Object.getPrototypeOf(result.copy) === result.proto && d.size === want.length && want.every(([k, p]) => sameProp(d.get(k), p)); },
        'the-copied-stays-as-it-is': ({ result }) => result.after.length === result.before.length && result.before.every(([k, p], i) => result.after[i][0] === k && sameProp(result.after[i][1], p)),
        'itself-or-a-copy-without-them': ({ keys, result }) => { const d = desc(result.gone), want = result.before.filter(([k]) => !keys.includes(k)); return Object.getPrototypeOf(result.gone) === result.proto && d.size === want.length && want.every(([k, p]) => sameProp(d.get(k), p)) && (result.gone === result.obj) === result.before.every(([k, p]) => !keys.includes(k) || p.configurable); },
        'the-list-of-keys-stays': ({ keys, result }) => result.list.length === keys.length && keys.every((k, i) => result.list[i] === k),
    },
});
C.push({
    id: 'lowerKeys', property: 'O04', uses: { toLowerCaseKey: O + 'keys/toLowerCaseKey.ts' }, bounded: 'objects of up to 7 own keys', runMs: 1500, runMax: 20000,
    drive: '(obj, cover) => ({ before: Reflect.ownKeys(obj), out: toLowerCaseKey(obj, cover), after: Reflect.ownKeys(obj) })',
    params: { obj: { ...T.tok(), gen: r => bag(r) }, cover: T.oneOf(undefined, true, false) },
    ensures: {
        'each-value-under-its-key-in-lower-case': ({ obj, cover, result }) => { const m = new Map(); for (const k of result.before) { const n = typeof k === 'symbol' ? k : k.toLowerCase(); if (cover !== false || !m.has(n)) m.set(n, obj[k]); } return Reflect.ownKeys(result.out).length === m.size && [...m].every(([k, v]) => Object.hasOwn(result.out, k) && Object.is(result.out[k], v)); },
        'the-object-stays': ({ result }) => result.after.length === result.before.length && result.after.every((k, i) => k === result.before[i]),
    },
});
const BUILD = new Function('tree', 'const done = []; const go = (t, up) => { if (t === null || typeof t !== "object" || (!Array.isArray(t) && Object.getPrototypeOf(t) !== Object.prototype)) return t; if (typeof t.$up === "number") return up[Math.max(0, up.length - 1 - t.$up)]; if (typeof t.$same === "number") return done.length ? done[Math.max(0, done.length - 1 - t.$same)] : null; const o = Array.isArray(t) ? [] : {}, u = [...up, o]; if (Array.isArray(t)) for (const x of t) o.push(go(x, u)); else for (const k of Object.keys(t)) o[k] = go(t[k], u); done.push(o); return o; }; return go(tree, []);'), BUILT = '(' + BUILD.toString().replace(/^function anonymous/, 'function') + ')';
const deepBag = (r, d = 0) => { const o = r.bool(0.25) ? [] : {}; const n = r.int(5); for (let i = 0; i < n; i++) { const v = d < 4 && r.bool(0.4) ? deepBag(r, d + 1) : r.bool(0.12) ? { $up: r.int(4) } : r.bool(0.1) ? { $same: r.int(3) } : r.pick([1, 'x', null, undefined, NaN, new Date(0)]); if (Array.isArray(o)) o.push(v); else o[r.pick(['a', 'b', 'c', 'B', 'z', 'toString', '', '1', '10', '2'])] = v; } return o; };
const CMP = { none: undefined, down: (a, b) => (a < b ? 1 : a > b ? -1 : 0), length: (a, b) => a.length - b.length };
const isInt32Key = k => /^(?:0|[1-9]\d{0,8})$/.test(k);
const order = (keys, cmp) => { const s = keys.slice().sort(CMP[cmp]), ints = s.filter(isInt32Key).sort((a, b) => a - b); return ints.concat(s.filter(k => !isInt32Key(k))); };
C.push({
    id: 'sortedKeys', property: 'O04', uses: { sortKeys: O + 'keys/sortKeys.ts' }, bounded: 'objects and lists nested up to 5 deep with shared and circular references', runMs: 2500, runMax: 20000,
    drive: '(tree, deep, cmp) => { const value = ' + BUILT + '(tree); return { value, out: sortKeys(value, { deep, compare: ({ none: undefined, down: (a, b) => (a < b ? 1 : a > b ? -1 : 0), length: (a, b) => a.length - b.length })[cmp] }) }; }',
    params: { tree: { ...T.tok(), gen: r => deepBag(r) }, deep: T.oneOf(undefined, true, false), cmp: T.oneOf('none', 'down', 'length') },
    ensures: {
        'the-same-but-sorted': ({ deep, cmp, result }) => {
            const seen = new Map(), plain = v => v !== null && typeof v === 'object' && (Array.isArray(v) || Object.getPrototypeOf(v) === Object.prototype);
            const ok = (v, w, top) => {
                if (!plain(v) || !(top || deep)) return Object.is(v, w);
                if (seen.has(v)) return seen.get(v) === w;
                seen.set(v, w);
                if (v === w || Array.isArray(v) !== Array.isArray(w)) return false;
                if (Array.isArray(v)) return v.length === w.length && v.every((x, i) => ok(x, w[i]));
                const want = order(Object.keys(v), cmp), got = Object.keys(w);
                return Object.getPrototypeOf(w) === Object.prototype && want.length === got.length && want.every((k, i) => got[i] === k && ok(v[k], w[k]));
            };
            return ok(result.value, result.out, true);
        },
    },
});
C.push({
    id: 'sortKeysRefused', property: 'O04', file: O + 'keys/sortKeys.ts', bounded: 'values that are no plain object or list', runMs: 300, runMax: 500,
    params: { value: { ...T.tok(), gen: r => r.pick([null, undefined, 1, 'a', true, () => 1, new Map(), new Date(0), /x/]) } },
    ensures: { never: () => false }, throws: { refused: ({ error }) => error instanceof TypeError },
});
C.push({
    id: 'withoutPrototype', property: 'O04', file: O + 'createWithNull.ts', bounded: 'up to 4 property descriptors or none', runMs: 800, runMax: 5000,
    params: { properties: { ...T.tok(), gen: r => r.bool(0.2) ? undefined : Object.fromEntries(Array.from({ length: r.int(5) }, (_, i) => [r.pick(['a', 'b', 'constructor', 'toString', '1']), { value: i, enumerable: r.bool(), writable: r.bool(), configurable: r.bool() }])) } },
    ensures: { 'only-what-was-given-and-no-prototype': ({ properties, result }) => Object.getPrototypeOf(result) === null && Reflect.ownKeys(result).length === Object.keys(properties || {}).length && Object.keys(properties || {}).every(k => sameProp(Object.getOwnPropertyDescriptor(result, k), properties[k])) },
});

// ---- O05: paths of keys as text, and JSON text ------------------------------
const NAMES = ['a', 'b', 'key', '_x', '$y', 'Z9', 'constructor', 'value', '\u4e2d\u6587', 'a-b', 'x y', '\u{1F600}', '-', ';', '(', '1a', 'a.b', '[', 'a"b', '7', '', 'new', '\u{1F600}z'];
const HARD = ["it's", 'b\\', "x'];throw 1;['x", 'n\nl', "'", 'r\r', '\\', "'a"];
const keyPath = (r, hard) => Array.from({ length: 1 + r.int(5) }, () => r.bool(0.25) ? r.int(4) : r.pick(hard && r.bool(0.4) ? HARD : NAMES.filter(x => x !== '')));
C.push({
    id: 'cascadeBack', property: 'O05', uses: { to: O + 'cascade/toCascadeKeys.ts', from: O + 'cascade/fromCascadeKeys.ts' }, bounded: 'up to 5 keys: names, texts without quotes, backslashes and closing brackets, places', runMs: 2000, runMax: 20000,
    drive: '(keys, startDot) => { const list = [...keys], text = from(list, { startDot }); return { text, list, back: to(text) }; }',
    params: { keys: { ...T.tok(), gen: r => keyPath(r, false).filter((x, i) => x !== 'a"b') }, startDot: T.oneOf(undefined, true, false) },
    requires: ({ keys }) => keys.length > 0,
    ensures: {
        'the-keys-come-back': ({ keys, result }) => result.back.length === keys.length && keys.every((k, i) => Object.is(result.back[i], k)),
        'the-list-of-keys-stays': ({ keys, result }) => result.list.length === keys.length && keys.every((k, i) => result.list[i] === k),
    },
});
C.push({
    id: 'cascadeValue', property: 'O05', uses: { from: O + 'cascade/fromCascadeKeys.ts' }, bounded: 'up to 5 keys of every kind, quotes and line breaks included, on objects that have them or end early', runMs: 2500, runMax: 20000,
    drive: '(keys, cut) => { let o = "leaf"; for (const k of keys.slice(0, cut).reverse()) o = { [k]: o }; const text = from(keys, { startDot: true, optional: true }); let got; try { got = [new Function("o", "return o" + text)(o)]; } catch (e) { got = e.name; } return { o, text, got }; }',
    params: { keys: { ...T.tok(), gen: r => keyPath(r, true) }, cut: T.int({ min: 0, max: 5, small: 5 }) },
    ensures: {
        'the-text-means-those-keys-and-nothing-else': ({ keys, result }) => { let v = result.o, stop = false; for (let i = 0; i < keys.length; i++) { const k = keys[i]; if (v === undefined || v === null) { if (i && typeof k === 'string' && /^[A-Za-z_$][\w$]*$/.test(k)) { v = undefined; stop = true; break; } return result.got === 'TypeError'; } v = v[k]; } return Array.isArray(result.got) && Object.is(result.got[0], v); },
    },
});
C.push({
    id: 'cascadeReads', property: 'O05', uses: { cascade: O + 'cascade/cascade.ts' }, bounded: 'texts of up to 5 names, places, quoted keys and keys from dependencies', runMs: 2500, runMax: 20000,
    drive: '(steps, leaf) => { const keys = steps.map(s => s.key); let o = leaf; for (const k of keys.slice().reverse()) o = typeof k === "number" ? Object.assign([], { [k]: o }) : { [k]: o }; const text = steps.map((s, i) => (s.as === "name" ? (i ? "." : "") + s.key : s.as === "place" ? "[" + s.key + "]" : s.as === "quoted" ? "[\\"" + s.key + "\\"]" : "[d" + i + "]")).join(""); const deps = Object.fromEntries(steps.map((s, i) => ["d" + i, s.key])); return [cascade(o, text, deps)]; }',
    params: { steps: { ...T.tok(), gen: r => Array.from({ length: 1 + r.int(5) }, () => { const as = r.pick(['name', 'name', 'place', 'quoted', 'dep']); return { as, key: as === 'place' ? r.int(5) : as === 'name' ? r.pick(['a', 'b', 'key', '_x', 'constructor', 'Z9', '\u4e2d', '\u{1F600}']) : as === 'quoted' ? r.pick(['a', 'x y', 'a.b', '\u{1F600}', '[', '-', ';']) : r.pick(['a', 'x y', 0, 3, "it's", "x'];throw 1;['x", '\\', 'n\nl', '\u{1F600}']) }; }) }, leaf: { ...T.tok(), gen: r => r.pick([0, 'v', null, undefined, { q: 1 }]) } },
    ensures: { 'the-value-at-the-end': ({ leaf, result }) => Object.is(result[0], leaf) },
});
C.push({
    id: 'cascadeMissing', property: 'O05', uses: { to: O + 'cascade/toCascadeKeys.ts' }, bounded: 'texts with empty, unknown and unclosed keys', runMs: 500, runMax: 3000,
    drive: '(text, deps) => { try { return to(text, deps); } catch (e) { return "refused"; } }',
    params: { text: { ...T.tok(), gen: r => r.pick(['a', 'b.c', '\u{1F600}', '']) + r.pick(['[', ']', '[]', '[ ]', '["', '[x', 'x]', "['']", '[constructor]', '[gone]', '[toString].a', '[empty]']) + r.pick(['', '']) }, deps: { ...T.tok(), gen: r => r.pick([undefined, {}, { y: 1 }, { empty: '' }]) } },
    ensures: { refused: ({ result }) => result === 'refused' },
});
const jsonBag = (r, d, cyc, arrays = true) => { const o = arrays && r.bool(0.3) ? [] : {}; const n = r.int(5); for (let i = 0; i < n; i++) { const v = d < 4 && r.bool(0.4) ? jsonBag(r, d + 1, cyc, arrays) : cyc && r.bool(0.2) ? { $up: r.int(4) } : r.bool(0.12) ? { $same: r.int(3) } : r.pick([1, 'x', 'q"', null, undefined, NaN, true, -0, new Date(0), () => 1, 1e21]); if (Array.isArray(o)) o.push(v); else o[r.pick(['a', 'b', 'c', 'B', 'z', 'toString', 'k l', '1', '10', '2'])] = v; } return o; };
const sortedCopy = (v, f) => Array.isArray(v) ? v.map(x => sortedCopy(x, f)) : v && typeof v === 'object' && Object.getPrototypeOf(v) === Object.prototype ? Object.fromEntries(Object.keys(v).sort((a, b) => f({ key: a, value: v[a] }, { key: b, value: v[b] })).map(k => [k, sortedCopy(v[k], f)])) : v;
const ROUND = (v, path = [], seen = []) => { if (v === null || typeof v !== 'object') return v; const at = seen.find(s => s[0] === v); if (at) return '[Circular *' + at[1].join('.') + ']'; if (!Array.isArray(v) && Object.getPrototypeOf(v) !== Object.prototype) return v; const s = seen.concat([[v, path]]); if (Array.isArray(v)) return v.map((x, i) => ROUND(x, path.concat(String(i)), s)); return Object.fromEntries(Object.keys(v).map(k => [k, ROUND(v[k], path.concat(k), s)])); };
const JCMP = (a, b) => (a.key < b.key ? 1 : a.key > b.key ? -1 : 0);
C.push({
    id: 'jsonText', property: 'O05', uses: { stringify: O + 'stringify.ts' }, bounded: 'values nested up to 5 deep, with shared references, any spacing, sorting, lists of keys and functions', runMs: 3000, runMax: 20000,
    drive: '(tree, space, way, list) => stringify(' + BUILT + '(tree), { space, ...(way === "sorted" && { compare: (a, b) => (a.key < b.key ? 1 : a.key > b.key ? -1 : 0) }), ...(way === "listed" && { replacer: list }), ...(way === "mapped" && { replacer: (k, v) => (typeof v === "number" ? undefined : v) }) })',
    params: { tree: { ...T.tok(), gen: r => r.bool(0.1) ? r.pick([1, 'x', null, undefined, NaN]) : jsonBag(r, 0, false, false) }, space: T.oneOf(undefined, 2, '--', 0), way: T.oneOf('plain', 'sorted', 'listed', 'mapped'), list: { ...T.tok(), gen: r => Array.from({ length: r.int(6) }, () => r.pick(['a', 'b', 'c', 'constructor', 1, 10, '2', 'gone'])) } },
    ensures: { 'as-json-has-it': ({ tree, space, way, list, result }) => { const value = BUILD(tree), v = way === 'sorted' ? sortedCopy(value, JCMP) : value, rep = way === 'mapped' ? (k, x) => (typeof x === 'number' ? undefined : x) : null; if (way !== 'listed') return result === JSON.stringify(v, rep, space); const keep = new Set(list.map(String)), cut = x => x && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype ? Object.fromEntries(Object.keys(x).filter(k => keep.has(k)).map(k => [k, cut(x[k])])) : x; return result === JSON.stringify(cut(v), null, space); } },
});
C.push({
    id: 'jsonCycles', property: 'O05', uses: { stringify: O + 'stringify.ts' }, bounded: 'values nested up to 5 deep with circular references', runMs: 3000, runMax: 20000,
    drive: '(tree, cycles) => { const value = ' + BUILT + '(tree); return stringify(value, { cycles }).then(text => ({ value, text }), () => ({ value, refused: true })); }',
    params: { tree: { ...T.tok(), gen: r => jsonBag(r, 0, true) }, cycles: T.oneOf(undefined, true, false) },
    ensures: { 'circles-named-by-their-start-or-refused': ({ cycles, result }) => { const { value } = result; let circular = false; try { JSON.stringify(value); } catch { circular = true; } return cycles === false && circular ? result.refused === true : result.text === JSON.stringify(ROUND(value)); } },
});
C.push({
    id: 'constructorNames', property: 'O04', uses: { ctor: O + 'constructor.ts', name: O + 'constructorName.ts' }, bounded: 'values of every kind, instances of classes with and without names, objects without prototype or constructor', runMs: 800, runMax: 5000,
    drive: 'which => { class Named {} const v = [undefined, null, 1, "a", true, 1n, Symbol.iterator, [], {}, new Map(), () => 1, new Named(), new (class {})(), Object.create(null), Object.create({ constructor: undefined }), Object.create({ constructor: null }), /x/, new Date(0), new Error("x"), Object.create(Array.prototype)][which]; return { want: v === undefined || v === null || Object.getPrototypeOf(v) === null ? undefined : Object.getPrototypeOf(v).constructor, c: ctor(v), n: name(v) }; }',
    params: { which: T.int({ min: 0, max: 19, small: 19 }) },
    requires: ({ which }) => which >= 0 && which <= 19,
    ensures: { 'the-constructor-and-its-name': ({ result }) => result.c === (result.want ?? null) && result.n === (result.want ? result.want.name : null) },
});

// ---- T04: valid names, dates, numbers, addresses and list shapes -------------
const RESERVED = 'break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with'.split(' ');
C.push({
    id: 'varNames', property: 'T04', file: Ty + 'variable/isVarName.ts', bounded: 'texts of up to 12 characters, reserved words, code', runMs: 2500, runMax: 30000,
    params: { value: { ...T.any(), gen: r => r.bool(0.1) ? r.pick([null, undefined, 1, {}, [], true, Symbol.iterator, ['a']]) : r.bool(0.2) ? r.pick(RESERVED) + r.pick(['', '', '_', '1', ' ']) : r.bool(0.15) ? r.pick(['a=1', 'a,b', 'a;b', '{a}', 'a}{', 'a//', 'a/**/', '[a]', 'a\n', '\na', 'a b', '', ' ', 'let', 'yield', 'await', 'async', 'static', 'of', 'eval', 'arguments', 'undefined', 'NaN', '{}=1', '\ufeffa', 'a\u2028']) : Array.from({ length: 1 + r.int(r.bool(0.1) ? 12 : 4) }, () => r.pick(['a', 'Z', '_', '$', '1', '9', '\u4e2d', '\u00e9', '\u200c', '\u200d', '\u0301', '-', '.', ' ', '\u{1D7D8}', '\u{20000}', '\u{1F600}', '\u00b7', '\u2118', '\u00aa', '\ud800', '#', '@', '(', '\u0660'])).join('') } },
    ensures: { 'exactly-the-names-a-variable-can-have': ({ value, result }) => result === (typeof value === 'string' && /^[\p{ID_Start}$_][\p{ID_Continue}$\u200c\u200d]*$/u.test(value) && !RESERVED.includes(value)) },
});
C.push({
    id: 'datesValid', property: 'T04', file: Ty + 'date/isDateValid.ts', bounded: 'values of every kind, times around the limits', runMs: 1500, runMax: 20000,
    params: { value: { ...T.any(), gen: r => r.pick([undefined, null, NaN, 0, 8.64e15, 8.64e15 + 1, -8.64e15, -8.64e15 - 1, Infinity, '', '2020-01-01', '2020-13-01', 'x', '01 Jan 1970 00:00:00 GMT', new Date(0), new Date(NaN), [], [0], [2020, 1], {}, true, 1n, Symbol.iterator, Object.create(null), () => 1, r.int(1e9)]) } },
    ensures: { 'exactly-what-a-date-can-be-made-from': ({ value, result }) => { let t = NaN; try { t = new Date(value).getTime(); } catch {} return result === (value !== undefined && t === t); } },
});
C.push({
    id: 'sparse', property: 'T04', uses: { is: Ty + 'array/isArraySparse.ts' }, bounded: 'lists of up to 12 places with holes anywhere', runMs: 1500, runMax: 20000,
    drive: '(n, holes, other) => { const a = []; a.length = n; for (let i = 0; i < n; i++) if (!holes.includes(i)) a[i] = i % 3 ? i : undefined; return [is(a), is(other)]; }',
    params: { n: T.int({ min: 0, max: 12, small: 12 }), holes: { ...T.tok(), gen: r => r.bool(0.4) ? [] : [r.int(13)] }, other: { ...T.tok(), gen: r => r.pick([null, undefined, 'ab', { length: 1 }, 1]) } },
    requires: ({ n }) => n >= 0,
    ensures: { 'exactly-with-a-hole': ({ n, holes, result }) => result[0] === holes.some(h => h < n), 'no-other-thing': ({ result }) => result[1] === false },
});
C.push({
    id: 'likeLists', property: 'T04', uses: { is: Ty + 'array/isArrayLike.ts', filled: Ty + 'array/isArrayLikeFilled.ts' }, bounded: 'objects with a length of up to 6 or none, numbered and named keys', runMs: 2000, runMax: 20000,
    drive: 'value => [0, 1, 2].map(s => [is(value, s), is(value, s, false)]).concat([[is(value), filled(value)]])',
    params: { value: { ...T.any(), gen: r => { const n = r.int(5), xs = Array.from({ length: n }, (_, i) => i); if (r.bool(0.2)) return r.pick([null, undefined, 'ab', '', [], [1], () => 1, function (a) {}, new Uint8Array(2), (function () { return arguments; })(1, 2), { length: -1 }, { length: 1.5 }, { length: '1' }, { length: 2 ** 32 }, { length: NaN }, { length: 2 ** 31, 5: 1 }, {}]); const o = { length: r.bool(0.7) ? n : r.int(6) }; for (const i of xs) if (r.bool(0.85)) o[r.bool(0.9) ? i : r.int(9)] = i; if (r.bool(0.3)) o[r.pick(['a', 'b c', '-1', '1.5'])] = 1; return o; } } },
    ensures: {
        'by-length-number-of-places-and-other-keys': ({ value, result }) => {
            const L = !!value && typeof value === 'object' && !Array.isArray(value) && typeof value.length === 'number' && Number.isInteger(value.length) && value.length >= 0 && value.length <= 4294967295;
            const keys = L ? Object.keys(value) : [], nums = keys.filter(k => /^(?:0|[1-9]\d*)$/.test(k)).length, dense = L && Array.from({ length: Math.min(nums, 20) }, (_, i) => Object.hasOwn(value, i)).every(Boolean);
            const want = [L, L && nums === value.length, L && nums === value.length && keys.length === value.length + 1];
            return [0, 1, 2].every(s => result[s][0] === want[s] && result[s][1] === (s ? want[s] && dense : want[s])) && result[3][0] === L && result[3][1] === (L && value.length > 0);
        },
    },
});
C.push({
    id: 'addresses', property: 'T04', file: Ty + 'url/isURLString.ts', bounded: 'texts of up to 5 address parts and other values', runMs: 1000, runMax: 5000,
    params: { value: { ...T.any(), gen: r => r.bool(0.15) ? r.pick([null, undefined, 1, {}, new URL('http://a')]) : r.pick(['http:', 'https:', 'ftp:', 'x:', 'file:', 'data:', '', ':', '1:']) + r.pick(['//', '/', '', '///']) + r.pick(['a', 'a.b', '[::1]', '[', '%', '', ' ', 'a b', '1.2.3.4', '1.2.3.999']) + r.pick(['', ':80', ':99999', '/p?q#f', ':x']) } },
    ensures: { 'exactly-what-parses': ({ value, result }) => result === (typeof value === 'string' && URL.canParse(value)) },
});
C.push({
    id: 'numberTexts', property: 'T04', file: Ty + 'number/isNumberValid.ts', bounded: 'values of every kind that turn into numbers, all sixteen options', runMs: 2000, runMax: 20000,
    params: { value: { ...T.any(), gen: r => r.pick([0, -1, 1.5, NaN, Infinity, -Infinity, '', ' ', '1', ' 2 ', '0x10', 'x', '1e1000', 'NaN', null, undefined, true, false, [], [3], [1, 2], {}, 5n, new Date(0), new Number(3), new String('4'), '\n', Symbol.iterator, Object.create(null)]) }, options: { ...T.tok(), gen: r => r.bool(0.15) ? undefined : { ...(r.bool(0.7) && { implicit: r.bool() }), ...(r.bool(0.5) && { allowNaN: r.bool() }), ...(r.bool(0.5) && { allowInfinity: r.bool() }), ...(r.bool(0.5) && { allowEmptyString: r.bool() }) } } },
    ensures: { 'by-kind-and-by-its-number': ({ value, options, result }) => { const { implicit = true, allowNaN = false, allowInfinity = false, allowEmptyString = false } = options || {}, n = (() => { try { return Number(value); } catch { return 'none'; } })(), t = Object.prototype.toString.call(value).slice(8, -1); const kind = implicit ? value !== undefined : (t === 'Number' && (allowNaN || !Number.isNaN(Number(value)))) || (t === 'String' && (allowEmptyString || String(value).trim() !== '')); return result === (n === 'none' ? kind && allowNaN && allowInfinity : kind && (allowNaN || n === n) && (allowInfinity || Math.abs(n) !== Infinity)); } },
});
C.push({
    id: 'everySome', property: 'T04', uses: { every: Ty + 'cmp/isEvery.ts', some: Ty + 'cmp/isSome.ts' }, bounded: 'one value or up to 6, one test or up to 4', runMs: 1500, runMax: 20000,
    drive: '(value, tests) => { const fns = [v => v > 1, v => v % 2 === 0, v => typeof v === "number", () => true, () => false], list = tests.map(t => fns[t]), one = list.length === 1 ? list[0] : list; return [every(value, one), some(value, one), value]; }',
    params: { value: { ...T.tok(), gen: r => r.bool(0.3) ? r.int(5) : Array.from({ length: r.int(7) }, () => r.int(5)) }, tests: { ...T.tok(), gen: r => Array.from({ length: r.int(5) }, () => r.int(5)) } },
    ensures: { 'all-tests-for-all-or-for-one': ({ value, tests, result }) => { const fns = [v => v > 1, v => v % 2 === 0, v => typeof v === 'number', () => true, () => false], vs = Array.isArray(value) ? value : [value], ok = v => tests.every(t => fns[t](v)); return result[0] === vs.every(ok) && result[1] === vs.some(ok); } },
});
C.push({
    id: 'nativeOrBound', property: 'T04', uses: { native: Ty + 'function/isNativeFunction.ts', bound: Ty + 'function/isFunctionBound.ts' }, bounded: 'every function of the built-in objects and functions of every other kind', runMs: 1500, runMax: 20000,
    drive: 'which => { const all = []; for (const o of [Object, Array, String, Number, Boolean, Symbol, Map, Set, Promise, RegExp, Date, Math, JSON, Reflect, Function, BigInt, ArrayBuffer]) for (const h of [o, o.prototype]) if (h) for (const k of Reflect.ownKeys(h)) { const d = Object.getOwnPropertyDescriptor(h, k); for (const f of [d.value, d.get, d.set]) if (typeof f === "function" && f.name && !(o === Function && h === o.prototype && k === "constructor")) all.push([f, true, false]); } function named() {} class K { m() {} static s() {} } const own = [named, () => 1, async () => 1, function* () {}, K, K.s, new K().m, async function* () {}, new Function("a", "return a"), { get x() { return 1; } }.constructor === Object && (function () {})]; for (const f of own) all.push([f, false, false], [f.bind(null), false, true]); all.push([Array.prototype.push.bind([]), false, true], [null, false, false], ["function", false, false], [{ name: "x" }, false, false]); const c = all[which % all.length]; return [native(c[0]), bound(c[0]), c[1], c[2], String(c[0] && c[0].name)]; }',
    params: { which: T.int({ min: 0, max: 800, small: 800 }) }, requires: ({ which }) => which >= 0,
    ensures: { 'native-exactly-when-built-in': ({ result }) => result[0] === result[2], 'bound-exactly-when-bound': ({ result }) => result[1] === result[3] },
});
C.push({
    id: 'bufferLists', property: 'T04', file: Ty + 'buffer/isBufferArray.ts', bounded: 'lists of up to 5 buffers and other things', runMs: 800, runMax: 5000,
    params: { value: { ...T.any(), gen: r => r.bool(0.15) ? r.pick([null, Buffer.alloc(1), 'x', {}]) : Array.from({ length: r.int(6) }, () => r.bool(0.85) ? Buffer.alloc(r.int(3)) : r.pick([new Uint8Array(1), null, 'a', []])) } },
    ensures: { 'filled-with-buffers-alone': ({ value, result }) => result === (Array.isArray(value) && value.length > 0 && value.every(x => Buffer.isBuffer(x))) },
});
C.push({
    id: 'prototypes', property: 'T04', uses: { is: Ty + 'property/isPrototype.ts', of: Ty + 'property/isPrototypeOf.ts' }, bounded: 'prototypes of built-in and other classes, instances, values of every kind', runMs: 800, runMax: 5000,
    drive: 'which => { class A {} class B extends A {} const pool = [A.prototype, B.prototype, new A(), new B(), Object.prototype, {}, Array.prototype, [], null, undefined, 1, "a", Object.create(null), Map.prototype, new Map(), A, Function.prototype]; const v = pool[which % 17], o = pool[(which >> 4) % 17]; const up = []; for (let p = v !== null && (typeof v === "object" || typeof v === "function") ? Object.getPrototypeOf(v) : null; p; p = Object.getPrototypeOf(p)) up.push(p); return [is(v), v !== null && v !== undefined && !!v.constructor && v === v.constructor.prototype, of(o, v), up.includes(o)]; }',
    params: { which: T.int({ min: 0, max: 400, small: 400 }) }, requires: ({ which }) => which >= 0,
    ensures: { 'the-prototype-of-its-constructor': ({ result }) => result[0] === result[1], 'on-the-chain': ({ result }) => result[2] === result[3] },
});
