'use strict';
// The host's file system as an environment: every operation is recorded, and
// its outcome is arbitrary (it may fail with anything, or succeed with any
// value of its result type).  Nothing is assumed about the tree behind it.
const { V, isNumLit, litVal } = require('./values');
const OPS = { // result of a successful call
    stat: 'stats', lstat: 'stats', readlink: 'text', realpath: 'text', readFile: 'any', mkdir: 'maybeText', writeFile: 'none', appendFile: 'none',
    unlink: 'none', rmdir: 'none', rm: 'none', copyFile: 'none', rename: 'none', symlink: 'none', link: 'none', access: 'none', truncate: 'none', chmod: 'none', readdir: 'names', open: 'any', cp: 'none'
};
const BITS = ['isFile', 'isDirectory', 'isSymbolicLink'];
// pure functions of their text arguments
const PURE = { 'path.dirname': 1, 'path.basename': 1, 'path.extname': 1, 'path.normalize': 1, 'path.join': 2, 'path.relative': 2, 'path.win32.normalize': 1, 'path.posix.normalize': 1 };
module.exports = Engine => {
    const P = Engine.prototype, callBuiltin = P.callBuiltin;
    P.hostFun = function (name, n) {
        const f = `host!${name}!${n}`; this._hostf = this._hostf || new Set();
        if (!this._hostf.has(f)) { this._hostf.add(f); this.solver.declare(`(declare-fun ${f} (${'String '.repeat(n)}) String)`); }
        return f;
    };
    P.callBuiltin = function (name, thisv, args, st, n) {
        const m = /^(?:fs\.promises|fs\/promises)\.(\w+)$/.exec(name);
        if (m && m[1] in OPS) return this.hostCall(st, m[1], args);
        if (name.startsWith('statbit:')) return this.one(st, V.bool(name.slice(8)));
        if (name in PURE && args.length === PURE[name] && args.every(a => a.v)) {
            this.assumptions.add(`${name} is a function of its text argument${PURE[name] > 1 ? 's' : ''}`);
            let outs = this.one(st, []);
            for (const a of args) outs = this.bind(outs, (s, acc) => this.bind(this.refine(s, a.v), (s, v) => v.t === 'str' ? this.one(s, [...acc, v.e]) : this.throwErr(s, 'TypeError')));
            return this.bind(outs, (s, es) => { const e = V.str(`(${this.hostFun(name, es.length)} ${es.join(' ')})`); s.assume(`(<= (str.len ${e.e}) 536870888)`); return this.one(s, e); });
        }
        if (name === 'JSON.stringify' && args.length === 1 && args[0].v) { // of anything: any text, nothing, or an exception
            this.assumptions.add('JSON.stringify(v) is a fixed text, a fixed undefined or an exception for each value v');
            return this.bind(this.refine(st, args[0].v), (s, v) => {
                const b = this.box(v, s), ok = this.jsonFun('ok'), f = this.jsonFun('text');
                return this.fork(s, `(${ok} ${b})`).flatMap(({ st, b: good }) => good ? this.one(st, V.val(`(${f} ${b})`)) : [{ st, thrown: V.val(this.decl('jsonerr', 'Val')) }]);
            });
        }
        return callBuiltin.call(this, name, thisv, args, st, n);
    };
    P.jsonFun = function (k) {
        const f = 'json!' + k;
        if (!this._jsonf) {
            this._jsonf = true; this.solver.declare('(declare-fun json!ok (Val) Bool)'); this.solver.declare('(declare-fun json!text (Val) Val)');
            this.solver.declare('(assert (forall ((v Val)) (! (or ((_ is VStr) (json!text v)) ((_ is VUndef) (json!text v))) :pattern ((json!text v)))))');
        }
        return f;
    };
    P.hostCall = function (st, op, args) {
        this.assumptions.add('every call of fs.promises may fail with any reason or succeed with any value of its result type; nothing is assumed about the files');
        const vals = args.map(a => { if (!a.v) { const e = new Error('spread in a host call'); e.unsup = true; throw e; } return a.v; });
        const log = st.heap.get('ext').calls, res = [];
        const done = (s, v, bits) => { s.heap.set('ext', { k: 'ext', calls: [...log, { op, args: vals, ok: true, v, bits }] }); res.push({ st: s, v: { t: 'prom', ok: true, v } }); };
        const s = st.clone();
        switch (OPS[op]) {
            case 'stats': {
                const bits = Object.fromEntries(BITS.map(b => [b, this.decl('st_' + b, 'Bool')]));
                for (let i = 0; i < 3; i++) for (let j = i + 1; j < 3; j++) s.assume(`(not (and ${bits[BITS[i]]} ${bits[BITS[j]]}))`);
                done(s, this.alloc(s, { k: 'rec', fields: Object.fromEntries(BITS.map(b => [b, { t: 'bi', name: 'statbit:' + bits[b] }])) }), bits); break;
            }
            case 'text': { const e = this.decl('host_' + op, 'String'); s.assume(`(< 0 (str.len ${e}))`, `(<= (str.len ${e}) 536870888)`); done(s, V.str(e)); break; }
            case 'any': { // a text or a Buffer
                const s2 = s.clone(), e = this.decl('host_' + op, 'String'), o = this.decl('hostbuf', 'Int'); s.assume(`(<= (str.len ${e}) 536870888)`); s2.assume(`(<= 0 ${o})`, `(not (oisarr ${o}))`, `(not (thenable (VObj ${o})))`);
                done(s, V.str(e)); done(s2, V.obj(`(VObj ${o})`)); break;
            }
            case 'maybeText': { const s2 = s.clone(); done(s, V.undef); done(s2, V.str(this.decl('host_' + op, 'String'))); break; }
            case 'none': done(s, V.undef); break;
            default: { const e = new Error('result of ' + op); e.unsup = true; throw e; }
        }
        const err = V.val(this.decl('host_err', 'Val'));
        st.heap.set('ext', { k: 'ext', calls: [...log, { op, args: vals, ok: false, v: err }] });
        res.push({ st, v: { t: 'prom', ok: false, v: err } });
        return res;
    };
};
