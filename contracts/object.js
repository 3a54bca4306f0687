'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, implies, iff, macro, rec, own, prop, keysOf, errName, ncalls, arg, nargs, ret, threw, exc, asVal, kindOf, nkey } = require('../lib/speclib');
const O = 'packages/object/src/';
const C = module.exports = [];
const nullish = macro('nullish', v => v === undefined || v === null);
const ANYO = () => T.or(T.const(undefined), T.const(null), T.obj());
// ---- O01 reading properties
C.push({
    id: 'getProperty', property: 'O01', file: O + 'property/getProperty.ts', keepUndef: true,
    params: { obj: ANYO(), key: T.key({ symbols: true }) },
    ensures: { 'nothing-from-nothing': ({ obj, result }) => implies(nullish(obj), result === undefined), 'the-property': ({ obj, key, result }) => nullish(obj) || same(result, prop(obj, key)) },
});
C.push({
    id: 'getPropertyGetter', property: 'O01', uses: { getPropertyGetter: O + 'property/getPropertyGetter.ts' }, keepUndef: true,
    drive: '(obj, key) => getPropertyGetter(key)(obj)',
    params: { obj: ANYO(), key: T.key({ symbols: true }) },
    ensures: { 'nothing-from-nothing': ({ obj, result }) => implies(nullish(obj), result === undefined), 'the-property': ({ obj, key, result }) => nullish(obj) || same(result, prop(obj, key)) },
});
// the value reached after n steps; nothing is reached through a missing link
const walk = rec('walk', ['val', 'arr:str', 'int'], 'val', (e, ps, n) => (n <= 0 ? e : nullish(walk(e, ps, n - 1)) ? undefined : prop(walk(e, ps, n - 1), ps[n - 1])));
C.push({
    id: 'getFromPaths', property: 'O01', file: O + 'values/getFromPaths.ts', keepUndef: true,
    params: { entity: ANYO(), paths: T.arr(T.str()), onlyPrivate: T.or(T.const(undefined), T.bool()) },
    inv: [({ $i, $v, entity, paths, onlyPrivate }) => same($v, walk(entity, paths, $i)) && forall(0, $i, k => !nullish(walk(entity, paths, k)) && (!onlyPrivate || own(walk(entity, paths, k), paths[k])))],
    ensures: {
        'a-missing-link-gives-undefined': ({ entity, paths, onlyPrivate, result }) => implies(exists(0, paths.length, k => nullish(walk(entity, paths, k)) || (onlyPrivate === true && !own(walk(entity, paths, k), paths[k]))), result === undefined),
        'the-value-at-the-end-of-the-path': ({ entity, paths, onlyPrivate, result }) => implies((paths.length === 0 || !nullish(entity)) && forall(0, paths.length, k => !nullish(walk(entity, paths, k)) && (!onlyPrivate || own(walk(entity, paths, k), paths[k]))), same(result, walk(entity, paths, paths.length))),
    },
});
C.push({
    id: 'shallowEqual', property: 'O02', file: O + 'shallowEqual.ts', keepUndef: true,
    params: { objA: ANYO(), objB: ANYO() },
    gen: (r, c) => {
        const a = ANYO().gen(r, c);
        if (!a || r.bool(0.15)) return [a, ANYO().gen(r, c)];
        if (r.bool(0.1)) return [a, a];
        // the same own properties, in another order, with at most one of them changed, dropped, renamed or inherited
        const ks = Reflect.ownKeys(a), b = Object.create(r.bool(0.2) ? { a: a.a } : null), hit = r.bool(0.75) ? ks[ks.length - 1 - r.int(Math.min(2, ks.length) || 1)] : undefined;
        for (const k of r.bool() ? ks : ks.slice().reverse()) {
            const d = Object.getOwnPropertyDescriptor(a, k);
            if (k === hit) { const w = r.int(5); if (w === 0) continue; if (w === 1) { b['zz'] = d.value; continue; } if (w === 2) { Object.setPrototypeOf(b, { [k]: d.value }); b.other = undefined; continue; } d.value = d.value === 0 ? -d.value : d.value === undefined ? r.pick([null, NaN]) : w === 3 ? r.pick([0, -0, NaN, undefined, null, '', {}]) : d.value; }
            Object.defineProperty(b, k, d);
        }
        return r.bool() ? [a, b] : [b, a];
    },
    inv: [({ $i, objA, objB }) => forall(0, $i, k => own(objB, keysOf(objA)[k]) && Object.is(prop(objA, keysOf(objA)[k]), prop(objB, keysOf(objA)[k])))],
    ensures: {
        'true-iff-same-keys-and-values': ({ objA, objB, result }) => result === (Object.is(objA, objB) || (!nullish(objA) && !nullish(objB) && keysOf(objA).length === keysOf(objB).length && forall(0, keysOf(objA).length, k => own(objB, keysOf(objA)[k]) && Object.is(prop(objA, keysOf(objA)[k]), prop(objB, keysOf(objA)[k]))))),
    },
});
C.push({
    id: 'keys', property: 'O03', file: O + 'keys/keys.ts', keepUndef: true,
    params: { object: T.obj(), methodLevel: T.or(T.const(undefined), T.oneOf(0, 1, 2, 3)) },
    ensures: {
        'the-kind-of-keys-asked-for': ({ object, methodLevel, result }) => methodLevel === 1 ? result.length === keysOf(object, 1).length && forall(0, result.length, k => same(result[k], keysOf(object, 1)[k])) : methodLevel === 2 ? result.length === keysOf(object, 2).length && forall(0, result.length, k => same(result[k], keysOf(object, 2)[k])) : methodLevel === 3 ? result.length === keysOf(object, 3).length && forall(0, result.length, k => same(result[k], keysOf(object, 3)[k])) : result.length === keysOf(object).length && forall(0, result.length, k => same(result[k], keysOf(object)[k])),
    },
});
C.push({
    id: 'values', property: 'O03', file: O + 'values/values.ts', keepUndef: true,
    params: { object: T.obj(), methodLevel: T.or(T.const(undefined), T.oneOf(0, 1, 2, 3)) },
    ensures: {
        'one-value-per-key-in-order': ({ object, methodLevel, result }) => methodLevel === 1 ? result.length === keysOf(object, 1).length && forall(0, result.length, k => same(result[k], prop(object, keysOf(object, 1)[k]))) : methodLevel === 2 ? result.length === keysOf(object, 2).length && forall(0, result.length, k => same(result[k], prop(object, keysOf(object, 2)[k]))) : methodLevel === 3 ? result.length === keysOf(object, 3).length && forall(0, result.length, k => same(result[k], prop(object, keysOf(object, 3)[k]))) : result.length === keysOf(object).length && forall(0, result.length, k => same(result[k], prop(object, keysOf(object)[k]))),
    },
});
C.push({
    id: 'objectToArray', property: 'O03', file: O + 'toArray.ts', keepUndef: true,
    params: { object: T.obj(), converter: T.cb() },
    inv: [({ $i, $a, object, converter }) => $a.length === $i && ncalls(converter) === $i && forall(0, $i, k => same($a[k], ret(converter, k))) && forall(0, $i, k => nargs(converter, k) === 2 && same(arg(converter, k, 0), keysOf(object)[k]) && same(arg(converter, k, 1), prop(object, keysOf(object)[k])))],
    ensures: {
        'converter-once-per-key': ({ object, converter }) => ncalls(converter) === keysOf(object).length,
        'converter-gets-key-and-value': ({ object, converter }) => forall(0, ncalls(converter), k => nargs(converter, k) === 2 && same(arg(converter, k, 0), keysOf(object)[k]) && same(arg(converter, k, 1), prop(object, keysOf(object)[k]))),
        'results-in-order': ({ converter, result }) => result.length === ncalls(converter) && forall(0, result.length, k => same(result[k], ret(converter, k))),
    },
    throws: { 'only-the-converters-failure': ({ converter, error }) => ncalls(converter) > 0 && threw(converter, ncalls(converter) - 1) && same(error, exc(converter, ncalls(converter) - 1)) },
});
C.push({
    id: 'isKeysIncludes', property: 'O03', file: O + 'keys/isKeysIncludes.ts', keepUndef: true,
    params: { object: T.obj(), key: T.or(T.str({ alphabet: 'abc' }), T.arr(T.str({ alphabet: 'abc' }))), methodLevel: T.or(T.const(undefined), T.bool()) },
    ensures: {
        'membership-of-the-keys': ({ object, key, methodLevel, result }) => result === (kindOf(key) === 'string' ? exists(0, keysOf(object).length, j => keysOf(object)[j] === key) : methodLevel ? exists(0, key.length, k => exists(0, keysOf(object).length, j => keysOf(object)[j] === key[k])) : forall(0, key.length, k => exists(0, keysOf(object).length, j => keysOf(object)[j] === key[k]))),
    },
});
C.push({
    id: 'objectToArray-pairs', property: 'O03', file: O + 'toArray.ts', keepUndef: true,
    params: { object: T.obj() },
    inv: [({ $i, $a, object }) => $a.length === $i && forall(0, $i, k => $a[k].length === 2 && same($a[k][0], keysOf(object)[k]) && same($a[k][1], prop(object, keysOf(object)[k])))],
    ensures: { 'the-entries-in-order': ({ object, result }) => result.length === keysOf(object).length && forall(0, result.length, k => result[k].length === 2 && same(result[k][0], keysOf(object)[k]) && same(result[k][1], prop(object, keysOf(object)[k]))) },
});
C.push({
    id: 'isValuesIncludes', property: 'O03', file: O + 'values/isValuesIncludes.ts', keepUndef: true,
    params: { object: T.obj(), value: T.arr(T.tok()), useAny: T.or(T.const(undefined), T.bool()) },
    ensures: {
        'membership-of-the-values': ({ object, value, useAny, result }) => result === (useAny ? exists(0, value.length, k => exists(0, keysOf(object).length, j => same(nkey(value[k]), nkey(prop(object, keysOf(object)[j]))))) : forall(0, value.length, k => exists(0, keysOf(object).length, j => same(nkey(value[k]), nkey(prop(object, keysOf(object)[j])))))),
    },
});
const hasKey = macro('hasKey', (o, a) => exists(0, keysOf(o, 3).length, j => same(keysOf(o, 3)[j], a)));
const lacks = rec('lacks', ['val', 'arr:str', 'int'], 'int', (o, as, n) => (n <= 0 ? 0 : lacks(o, as, n - 1) + (hasKey(o, as[n - 1]) ? 0 : 1)));
C.push({
    id: 'lackAttrs', property: 'O03', file: 'packages/util/src/lackAttrs.ts', keepUndef: true,
    params: { value: ANYO(), attributes: T.arr(T.str()) },
    inv: [({ $i, $a, value, attributes }) => $a.length === lacks(value, attributes, $i) && forall(0, $i, k => lacks(value, attributes, k) >= 0 && lacks(value, attributes, k) <= lacks(value, attributes, $i) && implies(!hasKey(value, attributes[k]), same($a[lacks(value, attributes, k)], attributes[k]) && lacks(value, attributes, k) < $a.length))],
    ensures: {
        'none-without-an-object': ({ value, result }) => implies(nullish(value), result.length === 0),
        'as-many-as-are-missing': ({ value, attributes, result }) => nullish(value) || result.length === lacks(value, attributes, attributes.length),
        'the-missing-ones-in-order': ({ value, attributes, result }) => nullish(value) || forall(0, attributes.length, k => implies(!hasKey(value, attributes[k]), same(result[lacks(value, attributes, k)], attributes[k]))),
    },
});
