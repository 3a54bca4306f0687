'use strict';
const { T } = require('../lib/types');
const { forall, exists, same, macro, mod, isInt, kindOf, tag, valueOf, truthy, own, prop, asStr, keysOf, inKey, protoOf, inst, builtin, sourceOf } = require('../lib/speclib');
const D = 'packages/types/src/';
const C = module.exports = [];
const isNum = macro('isNum', v => kindOf(v) === 'int' || kindOf(v) === 'double');
const isObj = macro('isObj', v => kindOf(v) === 'object' || kindOf(v) === 'array');
const isRef = macro('isRef', v => isObj(v) || kindOf(v) === 'function');
const isStr = macro('isStr', v => kindOf(v) === 'string' || (kindOf(v) === 'object' && tag(v) === 'String'));
const filledStr = macro('filledStr', v => isStr(v) && asStr(valueOf(v)).length > 0);
const isBool = macro('isBool', v => kindOf(v) === 'boolean' || (kindOf(v) === 'object' && tag(v) === 'Boolean'));
const pred = (path, spec, extra = {}) => {
    const id = path.split('/').pop();
    C.push({ id, property: 'T02', file: D + path + '.ts', params: { value: T.any() }, keepUndef: true, ...extra, ensures: { 'accepts-exactly': spec } });
};
const tagged = (n, t) => pred(n, new Function('tag', `return ({ value, result }) => result === (tag(value) === ${JSON.stringify(t)})`)(tag));
for (const [n, t] of [['element/isTextNode', 'Text'], ['element/isNodeList', 'NodeList'], ['element/isDocument', 'HTMLDocument'], ['element/isWindow', 'Window'], ['file/isBlob', 'Blob'], ['file/isFile', 'File'], ['file/isFileList', 'FileList'], ['file/isFileReader', 'FileReader']]) tagged(n, t);
// ---- collections and sizes
const size = macro('size', v => isNum(v.size));
for (const t of ['Map', 'Set']) pred(`collection/is${t}Filled`, new Function('tag', 'isNum', `return ({ value, result }) => tag(value) === '${t}' ? (isNum(value.size) && result === (value.size > 0)) : result === false`)(tag, isNum), { requires: new Function('tag', 'isNum', `return ({ value }) => tag(value) !== '${t}' || isNum(value.size)`)(tag, isNum) });
const count = macro('count', (v, n) => isNum(n) && Number.isSafeInteger(n) && n >= 0);
pred('property/isLengthy', ({ value, result }) => result === (isRef(value) || kindOf(value) === 'string' ? isNum(value.length) && Number.isSafeInteger(value.length) && value.length >= 0 : false));
pred('property/isLengthyFilled', ({ value, result }) => result === (isRef(value) || kindOf(value) === 'string' ? isNum(value.length) && Number.isSafeInteger(value.length) && value.length > 0 : false));
pred('property/isSizey', ({ value, result }) => result === (isRef(value) ? isNum(value.size) && Number.isSafeInteger(value.size) && value.size >= 0 : false));
pred('property/isSizeyFilled', ({ value, result }) => result === (isRef(value) ? isNum(value.size) && Number.isSafeInteger(value.size) && value.size > 0 : false));
// ---- big integers
const bigs = macro('bigs', v => kindOf(v) === 'bigint' || (kindOf(v) === 'object' && tag(v) === 'BigInt'));
pred('bigint/isBigIntFilled', ({ value, result }) => (kindOf(value) === 'bigint' ? result === (value > 0n) : result === false || (kindOf(value) === 'object' && tag(value) === 'BigInt')));
// ---- buffers
const VIEWS = t => t === 'Int8Array' || t === 'Int16Array' || t === 'Int32Array' || t === 'Uint8Array' || t === 'Uint16Array' || t === 'Uint32Array' || t === 'Float32Array' || t === 'Float64Array' || t === 'Uint8ClampedArray' || t === 'BigInt64Array' || t === 'BigUint64Array';
const views = macro('views', VIEWS);
const buf = macro('buf', v => kindOf(v) === 'object' && inst(v, 'Buffer'));
C.push({ id: 'isBuffer', property: 'T02', file: D + 'buffer/isBuffer.ts', bounded: 'generated values of every kind', runMs: 1500, params: { value: T.any() }, keepUndef: true, sane: ({ value }) => !(value && (typeof value === 'object' || typeof value === 'function') && value.constructor && value.constructor !== Buffer && value.constructor.isBuffer), ensures: { 'accepts-exactly': ({ value, result }) => !!result === inst(value, 'Buffer') } });
pred('buffer/isTypedArray', ({ value, result }) => result === (views(tag(value)) && !buf(value)));
pred('buffer/isUint8Array', ({ value, result }) => result === (tag(value) === 'Uint8Array' && !buf(value)));
pred('buffer/isArrayBufferView', ({ value, result }) => result === ((views(tag(value)) && !buf(value)) || tag(value) === 'DataView'));
pred('buffer/isBufferFilled', ({ value, result }) => (buf(value) ? isNum(value.length) && result === (value.length > 0) : result === false), { requires: ({ value }) => !buf(value) || isNum(value.length) });
// ---- errors
const anErr = macro('anErr', v => tag(v) === 'Error' || (isRef(v) && inst(v, 'Error')));
const PROTO = ({ value }) => !(tag(value) === 'Error' || (isRef(value) && inst(value, 'Error'))) || isRef(protoOf(value));
const errs = (n, t) => pred('error/' + n, new Function('anErr', 'protoOf', `return ({ value, result }) => result === (anErr(value) && protoOf(value).name === '${t}')`)(anErr, protoOf), { requires: PROTO });
pred('error/isAnyError', ({ value, result }) => result === anErr(value));
for (const t of ['TypeError', 'RangeError', 'EvalError', 'SyntaxError', 'ReferenceError', 'URIError', 'AggregateError']) errs('is' + t, t);
pred('error/isError', ({ value, result }) => result === (tag(value) === 'Error' && protoOf(value).name === 'Error'), { requires: PROTO });
pred('error/isErrorLike', ({ value, result }) => result === (isObj(value) && filledStr(value.name) && isStr(value.message) && filledStr(value.stack)));
const P = { value: T.any(), name: T.str(), message: T.str() };
pred('error/isSameError', ({ value, name, message, result }) => result === (anErr(value) && value.name === name && value.message === message), { params: P });
pred('error/isDOMException', ({ value, name, result }) => result === (tag(value) === 'DOMException' && (name === undefined || name === '' || value.name === name)), { params: { value: T.any(), name: T.opt(T.str()) } });
// ---- functions
const FLEN = { requires: ({ value }) => kindOf(value) !== 'function' || isNum(value.length) };
pred('function/isFunctionFilled', ({ value, result }) => result === (kindOf(value) === 'function' && value.length > 0), FLEN);
pred('function/isAsyncFunctionFilled', ({ value, result }) => result === (kindOf(value) === 'function' && tag(value).includes('Async') && value.length > 0), FLEN);
pred('function/isSyncFunctionFilled', ({ value, result }) => result === (kindOf(value) === 'function' && !tag(value).includes('Async') && value.length > 0), FLEN);
// ---- iteration
pred('iterator/isSyncIterable', ({ value, result }) => result === (kindOf(value) === 'string' || kindOf(value) === 'array' || (isRef(value) && typeof value[Symbol.iterator] === 'function')));
pred('iterator/isAsyncIterable', ({ value, result }) => result === (isRef(value) && typeof value[Symbol.asyncIterator] === 'function'));
pred('iterator/isIterable', ({ value, result }) => result === (kindOf(value) === 'string' || kindOf(value) === 'array' || (isRef(value) && (typeof value[Symbol.iterator] === 'function' || typeof value[Symbol.asyncIterator] === 'function'))));
// ---- objects
pred('object/isObjectFilled', ({ value, methodLevel, result }) => result === (tag(value) === 'Object' && keysOf(value, methodLevel).length > 0), { params: { value: T.any(), methodLevel: T.oneOf(0, 1, 2, 3) } });
const plain = macro('plain', v => tag(v) === 'Object' && v.constructor === builtin('Object') && protoOf(v) === builtin('Object.prototype'));
pred('object/isPlainObject', ({ value, result }) => result === plain(value));
pred('object/isPlainObjectFilled', ({ value, methodLevel, result }) => result === (plain(value) && keysOf(value, methodLevel).length > 0), { params: { value: T.any(), methodLevel: T.oneOf(0, 1, 2, 3) } });
pred('object/isPureObject', ({ value, result }) => result === (tag(value) === 'Object' && value.constructor === undefined && protoOf(value) === null && !inKey(value, Symbol.toStringTag) && !inKey(value, Symbol.iterator)));
pred('element/isReactElement', ({ value, result }) => result === (isRef(value) && value.$$typeof === Symbol.for('react.element')));
// ---- properties
const KP = { value: T.any(), key: T.key({ symbols: true }) };
pred('property/hasOwnProperty', ({ value, key, result }) => result === (isRef(value) ? own(value, key) : kindOf(value) === 'string' && own(value, key)), { params: KP });
pred('property/isProperty', ({ value, key, result }) => result === (isRef(value) && inKey(value, key)), { params: KP });
// ---- streams
const stream = macro('stream', v => tag(v) === 'Object' && inst(v, 'stream.Stream') && typeof v.pipe === 'function');
pred('stream/isStream', ({ value, result }) => result === stream(value));
pred('stream/isReadable', ({ value, result }) => result === (stream(value) && typeof value._read === 'function' && tag(value._readableState) === 'Object' && value.readable === true));
pred('stream/isWritable', ({ value, result }) => result === (stream(value) && typeof value._write === 'function' && tag(value._writableState) === 'Object' && value.writable === true));
pred('stream/isDuplex', ({ value, result }) => result === (stream(value) && typeof value._read === 'function' && typeof value._write === 'function' && tag(value._readableState) === 'Object' && tag(value._writableState) === 'Object' && value.readable === true && value.writable === true));
// ---- property descriptors
const accessor = macro('accessor', v => (own(v, 'get') && typeof v.get === 'function') || (own(v, 'set') && typeof v.set === 'function'));
const special = macro('special', k => k === 'get' || k === 'set' || k === 'value');
const flags = macro('flags', k => k === 'configurable' || k === 'enumerable' || k === 'writable');
const boolKey = macro('boolKey', (v, k) => isBool(prop(v, k)));
const descGen = r => { const o = {}; for (const k of ['value', 'get', 'set', 'configurable', 'enumerable', 'writable', 'extra']) if (r.bool(k === 'extra' ? 0.15 : k === 'value' ? 0.5 : 0.3)) o[k] = k === 'value' ? r.int(3) : k === 'get' || k === 'set' ? r.pick([() => 1, () => 1, undefined]) : r.pick([true, false, true, Object(false), 1, undefined]); return r.bool(0.85) ? o : Object.create(o); };
pred('property/isPropertyDescriptor', ({ value, allowExtraProperties, result }) => result === (tag(value) === 'Object' && own(value, 'value') !== accessor(value) && forall(0, keysOf(value).length, k => special(keysOf(value)[k]) || (flags(keysOf(value)[k]) ? boolKey(value, keysOf(value)[k]) : allowExtraProperties === true))), {
    bounded: 'generated descriptor-like objects with any subset of the seven keys, and other values', runMs: 1500,
    params: { value: T.or(T.any({ gen: descGen }), T.any({ gen: descGen }), T.any()), allowExtraProperties: T.bool() },
});
// ---- tags themselves: the cache makes the answer depend on the history of calls
C.push({ id: 'getTag', property: 'T02', file: D + 'type/getTag.ts', bounded: 'sequences of up to 13 values of every kind, one after another in one process', runMs: 3000, uses: { getTag: D + 'type/getTag.ts' },
    drive: '(values) => values.map(v => [getTag(v), getTag(v, false)])', params: { values: T.arr(T.any()) },
    sane: ({ values }) => values.every(v => !/[\]]|^$/.test(tag(v))), ensures: { 'built-in-tag': ({ values, result }) => forall(0, values.length, k => result[k][0] === tag(values[k]) && result[k][1] === '[object ' + tag(values[k]) + ']') } });
pred('function/isClass', ({ value, result }) => result === (kindOf(value) === 'function' && sourceOf(value).startsWith('class ')));
