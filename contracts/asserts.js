'use strict';
// G01: every assertion throws exactly when its predicate says no, and then a TypeError.
const { T } = require('../lib/types');
const { forall } = require('../lib/speclib');
const A = 'packages/asserts/src/', D = 'packages/types/src/';
const C = module.exports = [];
const PLAIN = {
    array: ['Array', 'ArrayFilled', 'ArrayIndex', 'ArrayLikeFilled', 'ArraySparse', 'ArrayTwoDimensional'], bigint: ['BigInt', 'BigIntArray', 'BigIntFilled', 'BigIntObject', 'BigIntPrimitive'], boolean: ['Boolean', 'BooleanArray', 'BooleanObject', 'BooleanPrimitive', 'False', 'True'],
    buffer: ['ArrayBuffer', 'ArrayBufferView', 'BigInt64Array', 'BigUint64Array', 'Buffer', 'BufferArray', 'BufferFilled', 'DataView', 'Float32Array', 'Float64Array', 'Int16Array', 'Int32Array', 'Int8Array', 'SharedArrayBuffer', 'TypedArray', 'Uint16Array', 'Uint32Array', 'Uint8Array', 'Uint8ClampedArray'],
    collection: ['Map', 'MapFilled', 'Set', 'SetFilled', 'WeakMap', 'WeakRef', 'WeakSet'], date: ['Date', 'DateValid', 'LeapYear'], element: ['Element', 'HTMLElement', 'NodeList', 'ReactElement', 'TextNode'],
    error: ['AggregateError', 'AnyError', 'Error', 'ErrorLike', 'EvalError', 'RangeError', 'ReferenceError', 'SyntaxError', 'TypeError', 'URIError'], event: ['Event'], file: ['Blob', 'File', 'FileList', 'FileReader'], form: ['FormData'],
    function: ['Arguments', 'AsyncFunction', 'AsyncFunctionFilled', 'Class', 'Function', 'FunctionArray', 'FunctionBound', 'FunctionFilled', 'NativeFunction', 'SyncFunction', 'SyncFunctionFilled'],
    generator: ['AsyncGenerator', 'AsyncGeneratorFunction', 'Generator', 'GeneratorFunction', 'SyncGenerator', 'SyncGeneratorFunction'], iterator: ['AsyncIterable', 'Iterable', 'Iterator', 'SyncIterable'],
    nullable: ['Null', 'NullArray', 'NullOrUndefined', 'NullOrUndefinedArray', 'Undefined', 'UndefinedArray'], number: ['Infinity', 'InfinityNegative', 'InfinityPositive', 'NumberFilled', 'NumberNegative', 'NumberPositive', 'NumberSafe', 'PrimeNumber', 'Zero'],
    'number/float': ['Float', 'Float16', 'Float16SafeInt', 'Float32', 'Float32SafeInt', 'Float64', 'Float64SafeInt', 'UFloat'], 'number/int': ['Int', 'Int16', 'Int32', 'Int8', 'IntEven', 'IntOdd', 'IntSafe', 'Uint', 'Uint16', 'Uint32', 'Uint8', 'UintFilled', 'UintSafe', 'UintSafeFilled'],
    object: ['Object', 'ObjectArray', 'PlainObject', 'PureObject', 'TypeofObject', 'TypeofObjectArray'], primitive: ['Falsy', 'FalsyArray', 'Primitive', 'Truthy', 'TruthyArray'], promise: ['Promise', 'PromiseLike'], property: ['Lengthy', 'LengthyFilled', 'PropertyKey', 'Prototype', 'PrototypeOf', 'Sizey', 'SizeyFilled'],
    regexp: ['RegExp'], stream: ['Duplex', 'Readable', 'Stream', 'Transform', 'Writable'], string: ['Char', 'String', 'StringArray', 'StringFilled', 'StringObject', 'StringPrimitive'], symbol: ['Symbol', 'SymbolArray', 'SymbolObject', 'SymbolPrimitive'], timeout: ['TimeoutMs'], url: ['URL', 'URLSearchParams', 'URLString'], variable: ['VarName'],
};
const ensures = { 'throws-exactly-when-the-predicate-says-no': ({ result }) => result[0] === !result[1], 'throws-a-type-error': ({ result }) => result[2] === true };
const guard = (path, is, params, call, pcall, extra = {}) => {
    const name = path.split('/').pop(), isn = is.split('/').pop();
    C.push({
        id: name, property: 'G01', params, abstract: [isn], keepUndef: true, runMs: 60,
        uses: { [name]: A + path + '.ts', [isn]: D + is + '.ts' },
        drive: `(${Object.keys(params).join(', ')}) => { let threw = false, type = true, ok = false; try { ${name}(${call}); } catch (e) { threw = true; type = e instanceof TypeError; } try { ok = ${isn}(${pcall}); } catch (e) { ok = false; type = true; } return [threw, ok, type]; }`,
        ensures, ...extra,
    });
};
const V = T.any(), N = T.str();
for (const [d, names] of Object.entries(PLAIN)) for (const n of names) guard(`${d}/assert${n}`, `${d}/is${n}`, { value: V, name: N }, 'value, name', 'value', n === 'PrimeNumber' ? { sane: ({ value }) => !(typeof value === 'number' && value > 1e9) } : {});
const ex = (path, is, x, dflt) => guard(path, is, { value: V, name: N, x }, 'value, name, x', dflt === undefined ? 'value, x' : `value, x === undefined ? ${dflt} : x`);
const flag = T.oneOf(undefined, true, false);
ex('array/assertArrayLike', 'array/isArrayLike', T.oneOf(undefined, 0, 1, 2), '0');
for (const n of ['NaN', 'Finite', 'Number', 'NumberArray', 'NumberObject', 'NumberPrimitive']) ex('number/assert' + n, 'number/is' + n, flag, 'false');
ex('object/assertObjectFilled', 'object/isObjectFilled', T.oneOf(undefined, 0, 1, 2, 3), '0');
ex('object/assertPlainObjectFilled', 'object/isPlainObjectFilled', T.oneOf(undefined, 0, 1, 2, 3), '0');
ex('property/assertPropertyDescriptor', 'property/isPropertyDescriptor', flag, 'true');
ex('string/assertStringTrim', 'string/isStringTrim', T.or(T.const(undefined), T.int({ small: 5 })), '0');
const key = T.any({ gen: r => r.pick(['a', 'length', 'then', 0, Symbol.iterator, 'toString']) });
ex('property/assertProperty', 'property/isProperty', key);
ex('property/assertOwnProperty', 'property/hasOwnProperty', key);
ex('type/assertTagEqual', 'type/getTagEqual', T.any({ gen: r => r.pick(['String', 'Number', 'Object', 'Array', 'Null']) }));
ex('type/assertTypeofEqual', 'type/typeofEqual', T.any({ gen: r => r.pick(['string', 'number', 'object', 'undefined', 'function']) }));
const fn = T.any({ gen: r => r.pick([undefined, () => true, () => false, v => v === null]) });
ex('element/assertDocument', 'element/isDocument', fn);
ex('element/assertWindow', 'element/isWindow', fn);
ex('error/assertDOMException', 'error/isDOMException', T.any({ gen: r => r.pick([undefined, 'AbortError']) }));
guard('number/assertNumberValid', 'number/isNumberValid', { value: V, name: N, x: T.any({ gen: r => r.pick([{}, { isInt: true }, { min: 0 }, { max: 3 }, { isUnsafe: false }]) }) }, 'value, name, x', 'value, x', { requires: [({ x }) => x !== undefined] });
guard('error/assertSameError', 'error/isSameError', { value: V, name: N, a: V, b: V }, 'value, name, a, b', 'value, a, b', { gen: (r, c) => { const e = new Error('m'), x = r.pick([undefined, 'm', 'n', '', null]), y = r.pick([undefined, 'm', 'n', '', null]); e.name = r.pick([undefined, 'm', 'n', 'Error']); e.message = r.pick([undefined, 'm', 'n']); return [r.bool(0.7) ? e : V.gen(r, c), N.gen(r, c), r.bool() ? x : e.name, r.bool() ? y : e.message]; } });
for (const [p, is] of [['platform/assertDeno', 'platform/isDeno'], ['platform/assertNodejs', 'platform/isNodejs'], ['platform/assertWebWorker', 'platform/isWebWorker'], ['platform/browser/assertBrowser', 'platform/browser/isBrowser']]) guard(p, is, {}, '', '');
const pr = T.any({ gen: r => r.pick([v => v === 1, v => typeof v === 'number', v => !!v, [v => !!v, v => v > 1]]) });
guard('cmp/assertEvery', 'cmp/isEvery', { value: V, p: pr }, 'value, p', 'value, p');
guard('cmp/assertSome', 'cmp/isSome', { value: V, p: pr }, 'value, p', 'value, p');
for (const n of ['Equal', 'NotEqual']) guard('cmp/assert' + n, 'cmp/is' + n, { value: V, a: T.arr(T.any()) }, 'value, ...a', 'value, ...a');
