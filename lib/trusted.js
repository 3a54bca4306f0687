'use strict';
// Assumed contracts for functions outside the verified fragment.
const { V } = require('./values');
const handlers = {};
const arg = (args, i) => (args[i] && args[i].v ? args[i].v : V.undef);
// error-message rendering only: the text is not part of any property
const msg = key => { handlers[key] = (eng, st) => eng.one(st, V.str(eng.decl('fmt', 'String'))); };
msg('packages/util/src/format.ts#format');
msg('packages/term/src/format.ts#format');
// the platform's cryptographic generator
handlers['packages/number/src/constants/getCrypto.ts#getCrypto'] = (eng, st) => eng.one(st, { t: 'bi', name: 'hostcrypto' });
// Object.prototype.toString tags: fixed for primitives and arrays, a fixed unknown string for every other object
const tagOf = (eng, st, v) => {
    const k = { undef: 'Undefined', null: 'Null', bool: 'Boolean', int: 'Number', fp: 'Number', real: 'Number', str: 'String', big: 'BigInt', sym: 'Symbol', regex: 'RegExp' }[v.t];
    if (k) return V.lit(k);
    if (v.t === 'obj' || v.t === 'ofn') return V.str(`(otag ${v.e})`);
    if (v.t === 'ref') { const c = eng.cell(st, v).k; const r = { arr: 'Array', tup: 'Array', err: 'Error', set: 'Set', map: 'Map', date: 'Date', rec: 'Object', clo: 'Function', cb: 'Function' }[c]; if (r && !(c === 'clo' && eng.cell(st, v).node && eng.cell(st, v).node.modifiers)) return V.lit(r); }
    if (v.t === 'prom') return V.lit('Promise');
    return null;
};
for (const nm of ['default', '%default', 'getTag']) handlers['packages/types/src/type/getTag.ts#' + nm] = (eng, st, args) => {
    eng.assumptions.add('arrays and primitives carry their built-in Object.prototype.toString tag');
    return eng.bind(eng.refine(st, arg(args, 0)), (st, v) => {
        const s = arg(args, 1), t = tagOf(eng, st, v);
        if (!t) { const e = new Error('tag of ' + v.t); e.unsup = true; throw e; }
        if (s.t === 'undef' || (s.t === 'bool' && s.e === 'true')) return eng.one(st, t);
        if (s.t === 'bool' && s.e === 'false') return eng.one(st, V.str(eng.concatStr(['"[object "', t.e, '"]"'])));
        const e = new Error('getTag slice'); e.unsup = true; throw e;
    });
};
// Buffers are recognised by their constructor, an object of the platform
for (const nm of ['default', '%default', 'isBuffer']) handlers['packages/types/src/buffer/isBuffer.ts#' + nm] = (eng, st, args) => {
    eng.assumptions.add('isBuffer accepts exactly the Buffer instances (checked on generated values only; forged constructors are excluded)');
    return eng.bind(eng.refine(st, arg(args, 0)), (st, v) => eng.one(st, V.bool(v.t === 'obj' ? `(${eng.instFun('Buffer')} ${v.e})` : 'false')));
};
module.exports = { handlers, arg, tagOf };
