'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, macro, div, mod, errName, isInt, isArr, kindOf, tag, valueOf, truthy, code, iff, asInt, strictEq } = require('../lib/speclib');
const D = 'packages/types/src/';
const C = module.exports = [];
const isNum = macro('isNum', v => kindOf(v) === 'int' || kindOf(v) === 'double');
const intBetween = macro('intBetween', (v, lo, hi) => isNum(v) && Number.isInteger(v) && v >= lo && v <= hi);
const integral = macro('integral', v => isNum(v) && Number.isInteger(v));
const fraction = macro('fraction', v => kindOf(v) === 'double' && Number.isFinite(v) && !Number.isInteger(v));
const within = macro('within', (v, m) => v >= 0 - m && v <= m);
const pred = (property, path, spec, extra = {}) => {
    const id = path.split('/').pop();
    C.push({ id, property, file: D + path + '.ts', params: { value: T.any() }, keepUndef: true, ...extra, ensures: { 'accepts-exactly': spec } });
};
// ---------------------------------------------------------------- T01 numeric predicates
const I = (n, lo, hi) => pred('T01', 'number/int/' + n, new Function('intBetween', 'C', `return ({ value, result }) => result === intBetween(value, ${lo}, ${hi})`)(intBetween));
I('isInt8', -128, 127); I('isInt16', -32768, 32767); I('isInt32', -2147483648, 2147483647);
I('isUint8', 0, 255); I('isUint16', 0, 65535); I('isUint32', 0, 4294967295);
I('../../timeout/isTimeoutMs', 0, 2147483647);
pred('T01', 'number/int/isInt', ({ value, result }) => result === integral(value));
pred('T01', 'number/int/isIntSafe', ({ value, result }) => result === (isNum(value) && Number.isSafeInteger(value)));
pred('T01', 'number/int/isUint', ({ value, result }) => result === (integral(value) && value >= 0));
pred('T01', 'number/int/isUintFilled', ({ value, result }) => result === (integral(value) && value > 0));
pred('T01', 'number/int/isUintSafe', ({ value, result }) => result === (isNum(value) && Number.isSafeInteger(value) && value >= 0));
pred('T01', 'number/int/isUintSafeFilled', ({ value, result }) => result === (isNum(value) && Number.isSafeInteger(value) && value > 0));
pred('T01', 'number/int/isIntEven', ({ value, result }) => (isNum(value) ? (kindOf(value) === 'int' ? result === (mod(value, 2) === 0) : result === (Number.isInteger(value) && Number.isInteger(value / 2))) : result === false));
pred('T01', 'number/int/isIntOdd', ({ value, result }) => (isNum(value) ? (kindOf(value) === 'int' ? result === (mod(value, 2) === 1) : result === (Number.isInteger(value) && !Number.isInteger(value / 2))) : result === false));
pred('T01', 'number/float/isFloat', ({ value, result }) => result === fraction(value));
pred('T01', 'number/float/isUFloat', ({ value, result }) => result === (fraction(value) && value > 0));
pred('T01', 'number/float/isFloat16', ({ value, result }) => result === (fraction(value) && within(value, 65504)));
pred('T01', 'number/float/isFloat32', ({ value, result }) => result === (fraction(value) && within(value, 3.4028234663852886e38)));
pred('T01', 'number/float/isFloat64', ({ value, result }) => result === fraction(value));
pred('T01', 'number/float/isFloat16SafeInt', ({ value, result }) => result === (integral(value) && within(value, 2047)));
pred('T01', 'number/float/isFloat32SafeInt', ({ value, result }) => result === (integral(value) && within(value, 16777215)));
pred('T01', 'number/float/isFloat64SafeInt', ({ value, result }) => result === (isNum(value) && Number.isSafeInteger(value)));
pred('T01', 'number/isZero', ({ value, result }) => result === (isNum(value) && value === 0));
pred('T01', 'number/isInfinity', ({ value, result }) => result === (isNum(value) && (value === Infinity || value === -Infinity)));
pred('T01', 'number/isInfinityPositive', ({ value, result }) => result === (isNum(value) && value === Infinity));
pred('T01', 'number/isInfinityNegative', ({ value, result }) => result === (isNum(value) && value === -Infinity));
pred('T01', 'number/isNumberFilled', ({ value, result }) => result === (isNum(value) && Number.isFinite(value) && value !== 0));
pred('T01', 'number/isNumberPositive', ({ value, result }) => result === (isNum(value) && Number.isFinite(value) && value > 0));
pred('T01', 'number/isNumberNegative', ({ value, result }) => result === (isNum(value) && Number.isFinite(value) && value < 0));
pred('T01', 'number/isNumberSafe', ({ value, result }) => result === (isNum(value) && Number.isFinite(value)));
pred('T01', 'number/isFinite', ({ value, result }) => result === (isNum(value) && Number.isFinite(value)));
pred('T01', 'number/isNaN', ({ value, result }) => result === (isNum(value) && Number.isNaN(value)));
const numObj = macro('numObj', v => kindOf(v) === 'object' && tag(v) === 'Number');
pred('T01', 'number/isNumberPrimitive', ({ value, allowNaN, result }) => result === (isNum(value) && (allowNaN === true || !Number.isNaN(value))), { params: { value: T.any(), allowNaN: T.oneOf(undefined, true, false) } });
pred('T01', 'number/isNumberObject', ({ value, allowNaN, result }) => (numObj(value) ? result === (allowNaN === true || !nanValue(valueOf(value))) : result === false), { params: { value: T.any(), allowNaN: T.oneOf(undefined, true, false) } });
pred('T01', 'number/isNumber', ({ value, allowNaN, result }) => (isNum(value) ? result === (allowNaN === true || !Number.isNaN(value)) : numObj(value) ? result === (allowNaN === true || !nanValue(valueOf(value))) : result === false), { params: { value: T.any(), allowNaN: T.oneOf(undefined, true, false) } });
const nanValue = macro('nanValue', v => isNum(v) && Number.isNaN(v));
pred('T01', 'date/isLeapYear', ({ value, result }) => (kindOf(value) === 'int' && value > 0 ? result === ((mod(value, 4) === 0 && mod(value, 100) !== 0) || mod(value, 400) === 0) : result === false));
C.push({
    id: 'isPrimeNumber', property: 'T01', file: D + 'number/isPrimeNumber.ts', keepUndef: true,
    params: { value: T.or(T.int(), T.fp({ max: 9007199254740991 }), T.oneOf(undefined, null, true, '7')) }, sane: ({ value }) => !(typeof value === 'number' && value > 1e9 && value < Infinity),
    assumes: ['integers above 2^53-1 are not considered'],
    inv: [({ $i, value }) => $i >= 2, ({ $i, value }) => forall(2, $i, d => mod(value, d) !== 0)],
    ensures: {
        'at-least-two': ({ value, result }) => !result || (kindOf(value) === 'int' && value >= 2),
        'no-divisor-up-to-the-root': ({ value, result }) => !result || forall(2, value, d => d * d > value || mod(value, d) !== 0),
        'rejected-only-with-a-divisor': ({ value, result }) => result || kindOf(value) !== 'int' || value < 2 || exists(2, value, d => mod(value, d) === 0),
    },
});
// ---------------------------------------------------------------- T02 kind predicates
const tagged = (n, t) => pred('T02', n, new Function('tag', `return ({ value, result }) => result === (tag(value) === ${JSON.stringify(t)})`)(tag));
const isObj = macro('isObj', v => kindOf(v) === 'object' || kindOf(v) === 'array');
pred('T02', 'nullable/isNull', ({ value, result }) => result === (kindOf(value) === 'null'));
pred('T02', 'nullable/isUndefined', ({ value, result }) => result === (kindOf(value) === 'undefined'));
pred('T02', 'nullable/isNullOrUndefined', ({ value, result }) => result === (kindOf(value) === 'null' || kindOf(value) === 'undefined'));
pred('T02', 'boolean/isBooleanPrimitive', ({ value, result }) => result === (kindOf(value) === 'boolean'));
pred('T02', 'boolean/isBooleanObject', ({ value, result }) => result === (kindOf(value) === 'object' && tag(value) === 'Boolean'));
pred('T02', 'boolean/isBoolean', ({ value, result }) => result === (kindOf(value) === 'boolean' || (kindOf(value) === 'object' && tag(value) === 'Boolean')));
pred('T02', 'boolean/isTrue', ({ value, result }) => result === (kindOf(value) === 'boolean' && value === true));
pred('T02', 'boolean/isFalse', ({ value, result }) => result === (kindOf(value) === 'boolean' && value === false));
pred('T02', 'bigint/isBigIntPrimitive', ({ value, result }) => result === (kindOf(value) === 'bigint'));
pred('T02', 'bigint/isBigIntObject', ({ value, result }) => result === (kindOf(value) === 'object' && tag(value) === 'BigInt'));
pred('T02', 'bigint/isBigInt', ({ value, result }) => result === (kindOf(value) === 'bigint' || (kindOf(value) === 'object' && tag(value) === 'BigInt')));
pred('T02', 'symbol/isSymbolPrimitive', ({ value, result }) => result === (kindOf(value) === 'symbol'));
pred('T02', 'symbol/isSymbolObject', ({ value, result }) => result === (kindOf(value) === 'object' && tag(value) === 'Symbol'));
pred('T02', 'symbol/isSymbol', ({ value, result }) => result === (kindOf(value) === 'symbol' || (kindOf(value) === 'object' && tag(value) === 'Symbol')));
pred('T02', 'string/isStringPrimitive', ({ value, result }) => result === (kindOf(value) === 'string'));
pred('T02', 'string/isStringObject', ({ value, result }) => result === (kindOf(value) === 'object' && tag(value) === 'String'));
pred('T02', 'string/isString', ({ value, result }) => result === (kindOf(value) === 'string' || (kindOf(value) === 'object' && tag(value) === 'String')));
const ANYP = T.or(T.prim(), T.arr(T.tok()));
pred('T02', 'string/isChar', ({ value, result }) => result === (kindOf(value) === 'string' && value.length === 1), { params: { value: ANYP } });
pred('T02', 'string/isStringFilled', ({ value, result }) => result === (kindOf(value) === 'string' && value.length > 0), { params: { value: ANYP } });
pred('T02', 'string/isStringTrim', ({ value, length, result }) => result === (kindOf(value) === 'string' && value.trim().length > length), { params: { value: ANYP, length: T.int({ small: 4 }) } });
pred('T02', 'primitive/isFalsy', ({ value, result }) => result === !truthy(value));
pred('T02', 'primitive/isTruthy', ({ value, result }) => result === truthy(value));
pred('T02', 'primitive/isPrimitive', ({ value, result }) => result === !(isObj(value) || kindOf(value) === 'function'));
pred('T02', 'object/isTypeofObject', ({ value, result }) => result === isObj(value));
tagged('object/isObject', 'Object'); tagged('promise/isPromise', 'Promise'); tagged('collection/isMap', 'Map'); tagged('collection/isSet', 'Set'); tagged('collection/isWeakMap', 'WeakMap'); tagged('collection/isWeakSet', 'WeakSet'); tagged('collection/isWeakRef', 'WeakRef');
tagged('date/isDate', 'Date'); tagged('regexp/isRegExp', 'RegExp'); tagged('url/isURL', 'URL'); tagged('url/isURLSearchParams', 'URLSearchParams'); tagged('function/isArguments', 'Arguments');
tagged('generator/isAsyncGenerator', 'AsyncGenerator'); tagged('generator/isSyncGenerator', 'Generator'); tagged('generator/isAsyncGeneratorFunction', 'AsyncGeneratorFunction'); tagged('generator/isSyncGeneratorFunction', 'GeneratorFunction');
pred('T02', 'generator/isGenerator', ({ value, result }) => result === (tag(value) === 'Generator' || tag(value) === 'AsyncGenerator'));
pred('T02', 'generator/isGeneratorFunction', ({ value, result }) => result === (tag(value) === 'GeneratorFunction' || tag(value) === 'AsyncGeneratorFunction'));
for (const [n, t] of [['isArrayBuffer', 'ArrayBuffer'], ['isSharedArrayBuffer', 'SharedArrayBuffer'], ['isDataView', 'DataView'], ['isInt8Array', 'Int8Array'], ['isUint8ClampedArray', 'Uint8ClampedArray'], ['isInt16Array', 'Int16Array'], ['isUint16Array', 'Uint16Array'], ['isInt32Array', 'Int32Array'], ['isUint32Array', 'Uint32Array'], ['isFloat32Array', 'Float32Array'], ['isFloat64Array', 'Float64Array'], ['isBigInt64Array', 'BigInt64Array'], ['isBigUint64Array', 'BigUint64Array']]) tagged('buffer/' + n, t);
pred('T02', 'function/isFunction', ({ value, result }) => result === (kindOf(value) === 'function'));
pred('T02', 'function/isAsyncFunction', ({ value, result }) => result === (kindOf(value) === 'function' && tag(value).includes('Async')));
pred('T02', 'function/isSyncFunction', ({ value, result }) => result === (kindOf(value) === 'function' && !tag(value).includes('Async')));
pred('T02', 'promise/isPromiseLike', ({ value, result }) => result === ((isObj(value) || kindOf(value) === 'function') && typeof value.then === 'function'));
pred('T02', 'iterator/isIterator', ({ value, result }) => result === ((isObj(value) || kindOf(value) === 'function') && typeof value.next === 'function'));
pred('T02', 'property/isPropertyKey', ({ value, result }) => result === (kindOf(value) === 'string' || isNum(value) || kindOf(value) === 'symbol' || (kindOf(value) === 'object' && (tag(value) === 'String' || tag(value) === 'Number' || tag(value) === 'Symbol'))));
pred('T02', 'array/isArray', ({ value, result }) => result === (kindOf(value) === 'array'));
pred('T02', 'array/isArrayFilled', ({ value, result }) => result === (kindOf(value) === 'array' && value.length > 0));
pred('T02', 'array/isArrayIndex', ({ value, result }) => result === (kindOf(value) === 'int' && value >= 0 && value <= 4294967295) || (isNum(value) && value === 0));
// ---------------------------------------------------------------- T03 array-of predicates
const arrs = (path, el, extra = {}) => pred('T03', path, el, { params: { value: T.or(T.arr(T.any()), T.prim()) }, ...extra });
const isO = macro('isO', v => kindOf(v) === 'object' || kindOf(v) === 'array');
const boxed = macro('boxed', (v, t) => kindOf(v) === 'object' && tag(v) === t);
const nonEmpty = macro('nonEmpty', v => kindOf(v) === 'array' && v.length > 0);
arrs('string/isStringArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'string' || boxed(value[k], 'String'))));
arrs('boolean/isBooleanArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'boolean' || boxed(value[k], 'Boolean'))));
arrs('bigint/isBigIntArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'bigint' || boxed(value[k], 'BigInt'))));
arrs('symbol/isSymbolArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'symbol' || boxed(value[k], 'Symbol'))));
arrs('nullable/isNullArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'null')));
arrs('nullable/isUndefinedArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'undefined')));
arrs('nullable/isNullOrUndefinedArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'undefined' || kindOf(value[k]) === 'null')));
arrs('function/isFunctionArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'function')));
arrs('primitive/isFalsyArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => !truthy(value[k]))));
arrs('primitive/isTruthyArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => truthy(value[k]))));
arrs('object/isObjectArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => tag(value[k]) === 'Object')));
arrs('object/isTypeofObjectArray', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => isO(value[k]))));
arrs('array/isArrayTwoDimensional', ({ value, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'array')));
arrs('number/isNumberArray', ({ value, allowNaN, result }) => result === (nonEmpty(value) && forall(0, value.length, k => kindOf(value[k]) === 'int' || (kindOf(value[k]) === 'double' && (allowNaN === true || !Number.isNaN(value[k]))) || (boxed(value[k], 'Number') && (allowNaN === true || !Number.isNaN(valueOf(value[k])))))), { params: { value: T.or(T.arr(T.any()), T.prim()), allowNaN: T.oneOf(undefined, true, false) } });
pred('T03', 'cmp/isEqual', ({ value, args, result }) => result === (args.length > 0 && forall(0, args.length, k => Number.isNaN(value) ? Number.isNaN(args[k]) : value === args[k])), { params: { value: T.any(), args: { ...T.arr(T.any()), rest: true } } });
pred('T03', 'cmp/isNotEqual', ({ value, args, result }) => result === (args.length > 0 && forall(0, args.length, k => Number.isNaN(value) ? !Number.isNaN(args[k]) : value !== args[k])), { params: { value: T.any(), args: { ...T.arr(T.any()), rest: true } } });
