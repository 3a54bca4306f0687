'use strict';
const { ts } = require('./loader');
const T = require('./values');
const { V, and, or, not, implies, eq, ite, add, sub, mul, cmp, strLit, isLit, unLit, fpLit, isNumLit, litVal, intLit, FP, sortOf } = T;
const K = ts.SyntaxKind;

module.exports = function (Engine) {
    const { Unsupported } = require('./engine');
    const P = Engine.prototype;
    const U = (m, n) => { throw new Unsupported(m, n); };
    const HOST = new Set(['Uint8Array', 'Uint16Array', 'Math', 'Number', 'String', 'Boolean', 'Array', 'Object', 'Reflect', 'Promise', 'Set', 'Map', 'WeakMap', 'WeakSet', 'Symbol', 'Date', 'JSON', 'Error', 'TypeError', 'RangeError', 'EvalError', 'SyntaxError', 'ReferenceError', 'URIError', 'AggregateError', 'isNaN', 'isFinite', 'parseInt', 'parseFloat', 'encodeURIComponent', 'decodeURIComponent', 'encodeURI', 'decodeURI', 'BigInt', 'RegExp', 'console', 'process', 'setTimeout', 'clearTimeout', 'queueMicrotask', 'Buffer', 'Proxy', 'Function', 'escape', 'unescape', 'Uint32Array', 'setClock']);
    P.isHostGlobal = n => HOST.has(n);
    const NUMC = { MAX_SAFE_INTEGER: Number.MAX_SAFE_INTEGER, MIN_SAFE_INTEGER: Number.MIN_SAFE_INTEGER, MAX_VALUE: Number.MAX_VALUE, MIN_VALUE: Number.MIN_VALUE, EPSILON: Number.EPSILON, POSITIVE_INFINITY: Infinity, NEGATIVE_INFINITY: -Infinity, NaN: NaN };
    P.biProp = function (st, o, name, n) {
        if (o.name === 'Number' && name in NUMC) return this.one(st, V.num(NUMC[name]));
        if (o.name === 'Symbol' && this.wellKnown(name)) return this.one(st, this.wellKnown(name));
        if (name === 'length') { let h; try { h = o.name.split('.').reduce((x, k) => x[k], globalThis); } catch { h = null; } if (typeof h === 'function') return this.one(st, V.int(String(h.length))); }
        if (o.name === 'Math' && name === 'PI') return this.one(st, V.num(Math.PI));
        if (o.name.startsWith('abstract:') && name === 'name') { const r = this.abstractKeys.get(o.name.slice(9)); return this.one(st, V.lit(r.node && r.node.name ? r.node.name.text : r.name)); }
        if (name === 'call' || name === 'apply' || name === 'bind') return this.one(st, { t: 'bm', recv: o, name });
        return this.one(st, { t: 'bi', name: o.name + '.' + name });
    };
    const WK = ['iterator', 'asyncIterator', 'toStringTag', 'hasInstance', 'toPrimitive', 'species', 'isConcatSpreadable', 'unscopables', 'match', 'matchAll', 'replace', 'search', 'split'];
    P.wellKnown = function (name) { const i = WK.indexOf(name); return i < 0 ? null : { t: 'sym', e: `(- ${1001 + i})`, wk: name }; };
    P.symFor = function (e) { return { t: 'sym', e: `(- ${2000 + this.biId('sym:' + e)})` }; };
    const arg = (args, i) => (args[i] ? (args[i].v || U('spread argument')) : V.undef);
    P.errNames = new Set(['Error', 'TypeError', 'RangeError', 'EvalError', 'SyntaxError', 'ReferenceError', 'URIError', 'AggregateError']);

    P.fpIsInt = x => { const m = /^\(fp\.roundToIntegral R\w\w (.*)\)$/.exec(x); if (m) return `(not (or (fp.isNaN ${m[1]}) (fp.isInfinite ${m[1]})))`; return P.fpIsInt0(x); };
    P.fpIsInt0 = x => `(and (not (fp.isNaN ${x})) (not (fp.isInfinite ${x})) (= ${x} (fp.roundToIntegral RTZ ${x})))`;
    P.numPred = function (st, name, v, n) {
        return this.bind(this.refine(st, v), (st, v) => {
            let t;
            if (v.t === 'int') t = name === 'isNaN' ? 'false' : 'true';
            else if (v.t === 'real') { if (name === 'isNaN') t = 'false'; else if (name === 'isFinite') t = 'true'; else t = `(is_int ${v.e})`; }
            else if (v.t === 'fp') {
                if (v.c !== undefined) t = String(Number[name](v.c));
                else t = { isNaN: `(fp.isNaN ${v.e})`, isFinite: `(not (or (fp.isNaN ${v.e}) (fp.isInfinite ${v.e})))`, isInteger: this.fpIsInt(v.e), isSafeInteger: and([this.fpIsInt(v.e), `(fp.leq (fp.abs ${v.e}) ${fpLit(9007199254740991)})`]) }[name];
            } else t = 'false';
            return this.one(st, V.bool(t));
        });
    };
    P.floorDiv = function (st, a, b) {
        if (this.valid(st, cmp('<', '0', b))) return this.divMod(a, b).q;
        if (this.valid(st, cmp('<', b, '0'))) return `(div (- ${a}) (- ${b}))`;
        return `(ite (> ${b} 0) (div ${a} ${b}) (div (- ${a}) (- ${b})))`;
    };
    // quotient and remainder as named constants (b > 0), so that the solvers see multiplication only
    P.divMod = function (a, b) {
        const bound = /\bq\d+\b|\bkk!|[( ]k[) ]|\bp\d+\b/.test(a + ' ' + b);
        if (!isNumLit(b) && !this._jsm) { this._jsm = true; this.solver.declare('(declare-fun jsdiv (Int Int) Int)'); this.solver.declare('(declare-fun jsmod (Int Int) Int)'); }
        if (bound && !isNumLit(b)) return { q: `(jsdiv ${a} ${b})`, r: `(jsmod ${a} ${b})` };
        if (isNumLit(b) || bound) return { q: `(div ${a} ${b})`, r: `(mod ${a} ${b})` };
        this._dm = this._dm || new Map(); const key = a + '|' + b;
        let x = this._dm.get(key);
        if (!x) {
            const i = this._dm.size; x = { q: `dq_${i}`, r: `dr_${i}` }; this._dm.set(key, x);
            this.solver.declare(`(declare-const ${x.q} Int)`); this.solver.declare(`(declare-const ${x.r} Int)`);
            this.solver.declare(`(assert (=> (> ${b} 0) (and (= ${x.q} (jsdiv ${a} ${b})) (= ${x.r} (jsmod ${a} ${b})) (= ${a} (+ (* ${x.q} ${b}) ${x.r})) (<= 0 ${x.r}) (< ${x.r} ${b}) (=> (<= 0 ${a}) (<= 0 ${x.q})) (=> (and (<= 0 ${a}) (< ${a} ${b})) (= ${x.q} 0)) (=> (<= ${b} ${a}) (<= 1 ${x.q})))))`);
        }
        return x;
    };
    P.mathRound = function (st, mode, v, n) {
        if (v.t === 'int') return V.int(v.e);
        if (v.t === 'real') {
            const fl = v.q ? this.floorDiv(st, v.q.a, v.q.b) : `(to_int ${v.e})`;
            const ce = v.q ? `(- ${this.floorDiv(st, `(- ${v.q.a})`, v.q.b)})` : `(- (to_int (- ${v.e})))`;
            if (mode === 'floor') return V.int(fl);
            if (mode === 'ceil') return V.int(ce);
            if (mode === 'trunc') return V.int(`(ite (>= ${v.e} 0.0) ${fl} ${ce})`);
            if (mode === 'round') return V.int(`(to_int (+ ${v.e} 0.5))`);
        }
        if (v.t === 'fp') { if (v.c !== undefined) return V.num(Math[mode](v.c)); const m = { floor: 'RTN', ceil: 'RTP', trunc: 'RTZ' }[mode]; if (m) return V.fp(`(fp.roundToIntegral ${m} ${v.e})`); }
        U('Math.' + mode + ' of ' + v.t, n);
    };
    P.callBuiltin = function (name, thisv, args, st, n) {
        if (name.startsWith('trusted:')) { const k = name.slice(8); this.assumptions.add('assumed contract: ' + k); return this.trusted[k](this, st, args, n); }
        if (name.startsWith('abstract:')) return this.callAbstract(name.slice(9), args, st, n);
        const a0 = () => arg(args, 0), a1 = () => arg(args, 1);
        if (this.errNames.has(name)) return this.evNewBuiltin(name, args, st, n);
        switch (name) {
            case 'Math.floor': case 'Math.ceil': case 'Math.trunc': case 'Math.round':
                return this.bind(this.toNumber(st, a0()), (st, v) => this.one(st, this.mathRound(st, name.slice(5), v, n)));
            case 'Math.abs': return this.bind(this.toNumber(st, a0()), (st, v) => this.one(st, v.t === 'int' ? V.int(isNumLit(v.e) ? String(litVal(v.e) < 0n ? -litVal(v.e) : litVal(v.e)) : ite(cmp('<', v.e, '0'), `(- ${v.e})`, v.e)) : v.t === 'fp' ? { ...V.fp(`(fp.abs ${v.e})`), rem: v.rem && { ...v.rem, abs: true } } : V.real(`(ite (< ${v.e} 0.0) (- ${v.e}) ${v.e})`)));
            case 'Math.max': case 'Math.min': return this.mathMinMax(name.slice(5), args, st, n);
            case 'Math.random': { const c = st.heap.get('rand'), r = `(select ${c.vals} ${c.n})`; st.heap.set('rand', { ...c, n: add(c.n, '1') }); st.assume(`(<= 0.0 ${r})`, `(< ${r} 1.0)`); this.assumptions.add('Math.random() returns any real in [0,1)'); return this.one(st, V.real(r)); }
            case 'hostcrypto.getRandomValues': return this.bind(this.deref(st, a0()), (st, v) => { const c = this.cell(st, v), a = this.decl('rv', '(Array Int Int)'); if (!c.bits) U('getRandomValues into another array', n); const lim = String(2n ** BigInt(c.bits)); st.assume(`(forall ((k Int)) (! (and (<= 0 (select ${a} k)) (< (select ${a} k) ${lim})) :pattern ((select ${a} k))))`); st.heap.set(v.id, { ...c, arr: a }); if (c.len === '1') { const d = st.heap.get('rand'); st.assume(`(= (select ${d.vals} ${d.n}) (/ (to_real (select ${a} 0)) ${lim}.0))`); st.heap.set('rand', { ...d, n: add(d.n, '1') }); } this.assumptions.add('getRandomValues fills a typed array with arbitrary integers of its range'); return this.one(st, v); });
            case 'Math.sqrt': return this.bind(this.toNumber(st, a0()), (st, v) => {
                if (v.t === 'fp') return this.one(st, V.fp(`(fp.sqrt RNE ${v.e})`));
                if (v.t === 'int' && this.valid(st, cmp('<=', '0', v.e))) { const r = this.decl('root', 'Real'); st.assume(`(<= 0.0 ${r})`); this.assumptions.add('Math.sqrt of an integer is compared with integers as the exact root'); return this.one(st, { ...V.real(r), sq: v.e }); }
                U('Math.sqrt', n);
            });
            case 'Math.pow': return this.arith('**', a0(), a1(), st, n);
            case 'Number.isInteger': case 'Number.isSafeInteger': case 'Number.isFinite': case 'Number.isNaN': return this.numPred(st, name.slice(7), a0(), n);
            case 'isNaN': case 'isFinite': return this.bind(this.toNumber(st, a0()), (st, v) => this.numPred(st, name, v, n));
            case 'Number': return args.length ? this.bind(this.refine(st, a0()), (st, v) => v.t === 'big' ? U('Number(bigint)', n) : this.toNumber(st, v)) : this.one(st, V.int('0'));
            case 'String': if (!args.length) return this.one(st, V.lit('')); return this.bind(this.deref(st, a0()), (st, v) => v.t === 'sym' ? this.one(st, V.str(this.decl('symstr', 'String'))) : this.toStr(st, v));
            case 'Boolean': return this.bind(this.deref(st, a0()), (st, v) => this.one(st, V.bool(this.truthy(st, v))));
            case 'Array.isArray': return this.bind(this.refine(st, a0()), (st, v) => this.one(st, V.bool(String(v.t === 'ref' && ['arr', 'tup'].includes(this.cell(st, v).k)))));
            case 'Array.of': return this.one(st, this.arrayFromArgs(st, args));
            case 'Array': return this.newArray(args, st, n);
            case 'Array.from': return this.arrayFrom(args, st, n);
            case 'Object.is': return this.bind(this.deref(st, a0()), (st, a) => this.bind(this.deref(st, a1()), (st, b) => this.one(st, V.bool(this.sameVal(st, a, b)))));
            case 'Object.freeze': case 'Object.seal': return this.one(st, a0());
            case 'Object.keys': case 'Object.getOwnPropertyNames': case 'Object.getOwnPropertySymbols': case 'Reflect.ownKeys': case 'Object.values': case 'Object.entries': return this.bind(this.refine(st, a0()), (st, v) => this.objectKeys(st, name, v, n));
            case 'Object.create': { if (a0().t === 'null') return this.one(st, this.alloc(st, { k: 'rec', fields: {}, nullProto: true })); break; }
            case 'Object.assign': return this.objectAssign(st, args, n);
            case 'Object.getPrototypeOf': return this.bind(this.refine(st, a0()), (st, v) => { if (v.t === 'undef' || v.t === 'null') return this.throwErr(st, 'TypeError'); return this.one(st, V.val(`(oproto ${this.box(v, st)})`)); });
            case 'Object.prototype': return this.one(st, { t: 'bi', name: 'Object.prototype' });
            case 'Object.prototype.hasOwnProperty': return this.hasOwn(st, thisv, a0(), n);
            case 'Object.hasOwn': return this.hasOwn(st, a0(), a1(), n);
            case 'Reflect.deleteProperty': return this.reflectDelete(st, a0(), a1(), n);
            case 'Reflect.has': return this.hasProp(st, a0(), a1(), n);
            case 'Promise.resolve': return this.adopt(st, a0());
            case 'Promise.reject': return this.one(st, { t: 'prom', ok: false, v: a0() });
            case 'Promise.all': return this.promiseAll(st, a0(), n);
            case 'Date.now': return this.dateNow(st);
            case 'Promise.race': return this.promiseRace(st, a0(), n);
            case 'setTimeout': return this.setTimer(st, args, n);
            case 'clearTimeout': return this.clearTimer(st, a0(), n);
            case 'setClock': return this.bind(this.refine(st, a0()), (st, v) => { if (v.t !== 'int') U('setClock', n); st.heap.set('now', { ...st.heap.get('now'), fixed: v.e }); return this.one(st, V.undef); });
            case 'String.fromCharCode': return this.bind(this.toNumber(st, a0()), (st, v) => { if (args.length === 1 && v.t === 'int') { if (!this.valid(st, and([cmp('<=', '0', v.e), cmp('<', v.e, '65536')]))) U('fromCharCode range', n); return this.one(st, V.str(`(str.from_code ${v.e})`)); } U('String.fromCharCode', n); });
            case 'encodeURIComponent': case 'decodeURIComponent': case 'encodeURI': case 'decodeURI': {
                const s = this.str1(name); return this.bind(this.toStr(st, a0()), (st, v) => { this.assumptions.add(name + ' is an uninterpreted string function'); return this.one(st, V.str(`(${s} ${v.e})`)); });
            }
            case 'console.log': case 'console.error': case 'console.warn': return this.one(st, V.undef);
            case 'Symbol.for': if (a0().t !== 'str') U('Symbol.for', n); return this.one(st, this.symFor(a0().e));
            case 'parseInt': return this.bind(this.deref(st, a0()), (st, v) => { if (v.t === 'int') return this.one(st, v); if (v.t === 'str' && /^"[^"\\]*"$/.test(v.e)) return this.one(st, V.num(parseInt(v.e.slice(1, -1), a1().t === 'int' ? Number(a1().e) : undefined))); U('parseInt', n); });
            case 'Function.prototype.toString': return this.bind(this.refine(st, thisv), (st, v) => { if (v.t !== 'ofn') U('source text of ' + v.t, n); this.assumptions.add('the source text of a function is a fixed string'); return this.one(st, V.str(`(${this.srcFun()} ${v.e})`)); });
            case 'Function.prototype': return this.one(st, { t: 'bi', name });
        }
        const dot = name.lastIndexOf('.');
        if (dot > 0) {
            const base = name.slice(0, dot), m = name.slice(dot + 1);
            if (/^(Array|String|Function|Object)\.prototype$/.test(base) && thisv && thisv.t !== 'undef') return this.bind(this.refine(st, thisv), (st, r) => this.callMethod({ t: 'bm', recv: r, name: m }, args, st, n));
        }
        U('builtin ' + name, n);
    };
    // a predicate verified (or assumed) elsewhere: here only a fixed boolean function of its arguments
    P.callAbstract = function (key, args, st, n) {
        const r = this.abstractKeys.get(key), ps = r.node.parameters || [];
        if (ps.some(p => p.dotDotDotToken) || args.some(a => !a.v)) U('abstract call with rest arguments', n);
        let outs = this.one(st, []);
        ps.forEach((p, i) => {
            outs = this.bind(outs, (st, acc) => this.bind(this.deref(st, arg(args, i)), (st, v) => {
                if (!p.initializer) return this.one(st, [...acc, v]);
                const isU = v.t === 'undef' ? 'true' : v.t === 'val' ? `((_ is VUndef) ${v.e})` : 'false';
                if (isU === 'false') return this.one(st, [...acc, v]);
                return this.fork(st, isU).flatMap(({ st, b }) => b ? this.bind(this.ev(p.initializer, st), (st, d) => this.one(st, [...acc, d])) : this.one(st, [...acc, v]));
            }));
        });
        return this.bind(outs, (st, vs) => {
            this._abs = this._abs || new Map();
            if (!this._abs.has(key)) this._abs.set(key, this.declFun('abs_' + key.replace(/\W+/g, '_'), vs.map(() => 'Val'), 'Bool'));
            this.assumptions.add('taken as a fixed boolean function of its arguments here: ' + key);
            return this.one(st, V.bool(vs.length ? `(${this._abs.get(key)} ${vs.map(v => this.box(v, st)).join(' ')})` : this._abs.get(key)));
        });
    };
    P.str1 = function (p) { this._str1 = this._str1 || {}; if (!this._str1[p]) { this._str1[p] = this.declFun('f_' + p, ['String'], 'String'); } return this._str1[p]; };
    P.sameVal = function (st, a, b) {
        if (a.t === 'int' && b.t === 'int') return eq(a.e, b.e);
        if (a.t === 'fp' || b.t === 'fp') { if ((a.t === 'fp' || a.t === 'int') && (b.t === 'fp' || b.t === 'int')) { const [x, y] = this.toFp2(a, b); return eq(x, y); } return b.t === 'val' || a.t === 'val' ? eq(this.box(a, st), this.box(b, st)) : 'false'; }
        if (a.t === 'val' || b.t === 'val') return eq(this.box(a, st), this.box(b, st));
        return this.strictEq(st, a, b);
    };
    P.mathMinMax = function (op, args, st, n) {
        let outs = this.one(st, []);
        for (const a of args) outs = this.bind(outs, (st, acc) => { if (!a.v) U('Math.' + op + ' spread', n); return this.bind(this.toNumber(st, a.v), (st, v) => this.one(st, [...acc, v])); });
        return this.bind(outs, (st, vs) => {
            if (!vs.length) return this.one(st, V.num(op === 'max' ? -Infinity : Infinity));
            let acc = vs[0];
            for (const v of vs.slice(1)) {
                if (acc.t === 'int' && v.t === 'int') acc = V.int(ite(cmp(op === 'max' ? '>=' : '<=', acc.e, v.e), acc.e, v.e));
                else if (acc.t === 'fp' || v.t === 'fp') {
                    const [x, y] = this.toFp2(acc, v);
                    acc = V.fp(`(ite (or (fp.isNaN ${x}) (fp.isNaN ${y})) (_ NaN 11 53) (ite (fp.${op === 'max' ? 'geq' : 'leq'} ${x} ${y}) ${x} ${y}))`);
                } else U('Math.' + op + ' kinds', n);
            }
            return this.one(st, acc);
        });
    };
    P.newArray = function (args, st, n) {
        if (args.length === 1 && args[0].v) return this.bind(this.refine(st, args[0].v), (st, v) => {
            if (v.t !== 'int') return this.one(st, this.alloc(st, { k: 'tup', items: [v] }));
            if (isNumLit(v.e) && litVal(v.e) <= 16n && litVal(v.e) >= 0n) return this.one(st, this.alloc(st, { k: 'tup', items: Array(Number(litVal(v.e))).fill(V.undef) }));
            return this.fork(st, and([cmp('<=', '0', v.e), cmp('<=', v.e, '4294967295')])).flatMap(({ st, b }) => b ? this.one(st, this.alloc(st, { k: 'arr', el: 'val', arr: '((as const (Array Int Val)) VUndef)', len: v.e })) : this.throwErr(st, 'RangeError'));
        });
        return this.one(st, this.arrayFromArgs(st, args));
    };
    P.arrayFrom = function (args, st, n) {
        return this.bind(this.refine(st, arg(args, 0)), (st, src) => {
            const fn = args[1] && args[1].v;
            const withFn = (st, base) => fn ? this.hof(st, 'map', base, [{ v: fn }], n, true) : this.one(st, base);
            if (src.t === 'str') return withFn(st, this.codePoints(st, src));
            if (src.t === 'ref') {
                const c = this.cell(st, src);
                if (c.k === 'tup') return withFn(st, this.alloc(st, { k: 'tup', items: c.items.slice() }));
                if (c.k === 'arr') return withFn(st, this.alloc(st, { k: 'arr', el: c.el, arr: c.arr, len: c.len, cat: c.cat }));
                if (c.k === 'set') return withFn(st, this.alloc(st, { k: 'arr', el: 'val', arr: c.ord, len: c.size }));
                if (c.k === 'rec' && c.fields.length) return this.bind(this.toNumber(st, c.fields.length), (st, l) => {
                    if (l.t === 'real') U('Array.from real length', n);
                    if (l.t !== 'int') U('Array.from length kind ' + l.t, n);
                    return this.fork(st, cmp('<=', l.e, '4294967295')).flatMap(({ st, b }) => {
                        if (!b) return this.throwErr(st, 'RangeError');
                        const len = this.valid(st, cmp('<=', '0', l.e)) ? l.e : `(ite (< ${l.e} 0) 0 ${l.e})`;
                        return withFn(st, this.alloc(st, { k: 'arr', el: 'val', arr: '((as const (Array Int Val)) VUndef)', len }));
                    });
                });
            }
            U('Array.from ' + src.t, n);
        });
    };
    // the code-point decomposition of a string (ECMAScript string iterator)
    P.codePoints = function (st, s) {
        this._cp = this._cp || {};
        let f = this._cp[s.e];
        if (!f) f = this._cp[s.e] = { arr: this.decl('cps', '(Array Int String)'), off: this.decl('cpo', '(Array Int Int)'), n: this.decl('cpn', 'Int') };
        const { arr, off, n } = f;
        const at = `(select ${off} k)`, L = `(str.len ${s.e})`, c0 = `(str.to_code (str.at ${s.e} ${at}))`, c1 = `(str.to_code (str.at ${s.e} (+ ${at} 1)))`;
        const pair = and([`(<= 55296 ${c0} 56319)`, `(< (+ ${at} 1) ${L})`, `(<= 56320 ${c1} 57343)`]);
        st.assume(cmp('<=', '0', n), `(= (select ${off} 0) 0)`, `(= (select ${off} ${n}) ${L})`, `(<= ${n} ${L})`, `(=> (> ${L} 0) (> ${n} 0))`,
            `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${n})) (and (<= 0 ${at}) (< ${at} ${L}) (= (select ${arr} k) (str.substr ${s.e} ${at} (ite ${pair} 2 1))) (= (select ${off} (+ k 1)) (+ ${at} (ite ${pair} 2 1))))) :pattern ((select ${arr} k))))`);
        this.assumptions.add('assumed contract: the string iterator splits a string into its code points in order');
        return this.alloc(st, { k: 'arr', el: 'str', arr, len: n, cat: s.e, off, src: s.e });
    };
    P.objectKeys = function (st, name, v, n) {
        if (v.t === 'undef' || v.t === 'null') return this.throwErr(st, 'TypeError');
        if (v.t === 'ref') {
            const c = this.cell(st, v);
            if (c.k === 'rec') {
                const ks = Object.keys(c.fields);
                const kind = name.split('.')[1];
                if (kind === 'values') { let outs = this.one(st, []); for (const k of ks) outs = this.bind(outs, (st, acc) => this.bind(this.deref(st, c.fields[k]), (st, x) => this.one(st, [...acc, x]))); return this.bind(outs, (st, it) => this.one(st, this.alloc(st, { k: 'tup', items: it }))); }
                if (kind === 'entries') return this.one(st, this.alloc(st, { k: 'tup', items: ks.map(k => this.alloc(st, { k: 'tup', items: [V.lit(k), c.fields[k]] })) }));
                return this.one(st, this.alloc(st, { k: 'tup', items: ks.map(k => V.lit(k)) }));
            }
        }
        const ob = v.t === 'obj' || v.t === 'ofn' ? v.e : v.t === 'ref' && this.cell(st, v).boxed;
        if (ob) {
            if (name === 'Object.entries') U(name + ' of an opaque object', n);
            const kn = name === 'Object.values' ? 'Object.keys' : name, q = this.opaqueKeys(ob, kn, st), nk = this.decl('nkeys', 'Int');
            st.assume(eq(nk, q.len)); q.len = nk;
            if (name !== 'Object.values') return this.one(st, this.alloc(st, { k: 'arr', el: q.el, arr: q.arr, len: q.len, frozen: false }));
            const vals = this.decl('ovals', '(Array Int Val)');
            st.assume(`(forall ((k Int)) (! (= (select ${vals} k) (oprop ${ob} (VStr (select ${q.arr} k)))) :pattern ((select ${vals} k)) :pattern ((select ${q.arr} k))))`);
            return this.one(st, this.alloc(st, { k: 'arr', el: 'val', arr: vals, len: q.len, frozen: false }));
        }
        if (name === 'Reflect.ownKeys' && ['undef', 'null', 'bool', 'int', 'fp', 'str', 'big', 'sym'].includes(v.t)) return this.throwErr(st, 'TypeError');
        U(name + ' of ' + v.t, n);
    };
    // the own keys of an opaque object, as a fixed sequence of distinct own properties
    P.opaqueKeys = function (ob, name, st) {
        const f = { 'Object.keys': 'okeys', 'Object.getOwnPropertyNames': 'onames', 'Object.getOwnPropertySymbols': 'osyms', 'Reflect.ownKeys': 'oallkeys' }[name];
        const el = f === 'okeys' || f === 'onames' ? 'str' : 'val', e = `(${f} ${ob})`, k = el === 'str' ? `(VStr (select (sarr ${e}) k))` : `(select (sarr ${e}) k)`;
        this.assumptions.add('own keys and properties of an opaque object are fixed while the function reads them (no getters or proxies with effects)');
        if (st) st.assume(`(<= 0 (slen ${e}))`, `(<= (slen ${e}) 4294967294)`, `(forall ((k Int)) (! (=> (and (<= 0 k) (< k (slen ${e}))) (and (oown ${ob} ${k})${el === 'val' ? ` (or ((_ is VStr) ${k}) ((_ is VSym) ${k}))` : ''})) :pattern ((select (sarr ${e}) k))))`);
        return { el, arr: `(sarr ${e})`, len: `(slen ${e})` };
    };
    P.objectAssign = function (st, args, n) {
        const t = arg(args, 0);
        if (t.t !== 'ref' || this.cell(st, t).k !== 'rec') U('Object.assign target', n);
        for (const a of args.slice(1)) { const v = a.v; if (v.t === 'undef' || v.t === 'null') continue; if (v.t !== 'ref' || this.cell(st, v).k !== 'rec') U('Object.assign source', n); st.heap.set(t.id, { ...this.cell(st, t), fields: { ...this.cell(st, t).fields, ...this.cell(st, v).fields } }); }
        return this.one(st, t);
    };
    P.hasOwn = function (st, o, k, n) {
        return this.bind(this.refine(st, o), (st, o) => this.bind(this.deref(st, k), (st, k) => {
            if (o.t === 'undef' || o.t === 'null') return this.throwErr(st, 'TypeError');
            if (o.t === 'ref') {
                const c = this.cell(st, o);
                if (c.k === 'rec') {
                    const key = this.keyOf(k);
                    if (key.name !== undefined) { const has = Object.prototype.hasOwnProperty.call(c.fields, key.name); return this.one(st, V.bool(String(has))); }
                }
                if (c.boxed) return this.one(st, V.bool(`(oown ${c.boxed} ${this.keyTerm(st, this.keyOf(k))})`));
                if (c.k === 'arr' || c.k === 'tup') { if (k.t === 'int' && !c.sparse) return this.one(st, V.bool(and([cmp('<=', '0', k.e), cmp('<', k.e, this.arrLen(st, o))]))); }
            }
            if (o.t === 'obj' || o.t === 'ofn') return this.one(st, V.bool(`(oown ${o.e} ${this.keyTerm(st, this.keyOf(k))})`));
            if (['int', 'fp', 'bool', 'big', 'sym'].includes(o.t)) { const e = `(oown ${this.box(o, st)} ${this.keyTerm(st, this.keyOf(k))})`; st.assume(not(e)); return this.one(st, V.bool('false')); }
            if (o.t === 'str') { if (k.t === 'str' && /^"[^"\\]*"$/.test(k.e) && !/^"\d+"$/.test(k.e)) return this.one(st, V.bool(String(k.e === '"length"'))); return this.one(st, V.bool(`(oown ${this.box(o, st)} ${this.keyTerm(st, this.keyOf(k))})`)); }
            U('hasOwnProperty on ' + o.t, n);
        }));
    };
    P.hasProp = function (st, o, k, n) {
        return this.bind(this.refine(st, o), (st, o) => {
            if (['obj', 'ofn'].includes(o.t)) return this.one(st, V.bool(`(ohas ${o.e} ${this.keyTerm(st, this.keyOf(k))})`));
            if (o.t === 'ref') {
                const c = this.cell(st, o), key = this.keyOf(k);
                if (c.k === 'rec' && key.name !== undefined) { if (Object.prototype.hasOwnProperty.call(c.fields, key.name)) return this.one(st, V.bool('true')); return this.one(st, V.bool(String(!c.nullProto && key.name in {}))); }
                if (c.boxed) return this.one(st, V.bool(`(ohas ${c.boxed} ${this.keyTerm(st, key)})`));
                if (['arr', 'tup'].includes(c.k)) { if (key.key && key.key.t === 'int') return this.one(st, V.bool(and([cmp('<=', '0', key.key.e), cmp('<', key.key.e, this.arrLen(st, o))]))); if (key.name !== undefined && !/^\d+$/.test(key.name)) return this.one(st, V.bool(String(key.name in []))); }
            }
            if (['undef', 'null', 'int', 'fp', 'bool', 'str', 'sym', 'big'].includes(o.t)) return this.throwErr(st, 'TypeError');
            U('in on ' + o.t, n);
        });
    };
    P.reflectDelete = function (st, o, k, n) { U('Reflect.deleteProperty', n); };
    P.instanceOf = function (st, l, r, n) {
        return this.bind(this.refine(st, l), (st, v) => {
            if (r.t === 'bi') {
                if (v.t === 'ref') {
                    const c = this.cell(st, v);
                    if (c.k === 'err') return this.one(st, V.bool(String(r.name === 'Error' || r.name === c.name || r.name === 'Object')));
                    if (['arr', 'tup'].includes(c.k) && !c.boxed) return this.one(st, V.bool(String(r.name === 'Array' || r.name === 'Object')));
                    if (c.k === 'rec') return this.one(st, V.bool(String(r.name === 'Object')));
                    if (['set', 'map'].includes(c.k)) return this.one(st, V.bool(String(r.name.toLowerCase() === c.k)));
                }
                if (['undef', 'null', 'int', 'fp', 'bool', 'str', 'sym', 'big', 'real'].includes(v.t)) return this.one(st, V.bool('false'));
                if (v.t === 'prom') return this.one(st, V.bool(String(r.name === 'Promise')));
                if (['obj', 'ofn', 'ref'].includes(v.t)) { const f = this.instFun(r.name); return this.one(st, V.bool(`(${f} ${this.box(v, st)})`)); }
            }
            U('instanceof', n);
        });
    };
    P.srcFun = function () { return this._src || (this._src = this.declFun('fnsrc', ['Val'], 'String')); };
    P.instFun = function (nm) { this._inst = this._inst || {}; return this._inst[nm] || (this._inst[nm] = this.declFun('inst_' + nm, ['Val'], 'Bool')); };
    P.dictGet = function (st, o, key, n) { U('dictionary read', n); };

    // ---------------- construction
    P.evNew = function (n, st) {
        return this.bind(this.ev(n.expression, st), (st, f) => this.bind(this.evArgs(n.arguments || [], st), (st, args) => {
            if (f.t === 'bi') return this.evNewBuiltin(f.name, args, st, n);
            U('new ' + f.t, n);
        }));
    };
    P.evNewBuiltin = function (name, args, st, n) {
        if (this.errNames.has(name)) {
            const agg = name === 'AggregateError';
            const m = args[agg ? 1 : 0] ? args[agg ? 1 : 0].v : V.lit('');
            const fields = { message: m };
            if (agg) { const src = args[0] && args[0].v; if (src && src.t === 'ref') { const c = this.cell(st, src); fields.errors = this.alloc(st, { ...c, frozen: false }); } }
            const opt = args[agg ? 2 : 1];
            if (opt && opt.v.t === 'ref' && this.cell(st, opt.v).k === 'rec' && this.cell(st, opt.v).fields.cause) fields.cause = this.cell(st, opt.v).fields.cause;
            return this.one(st, this.alloc(st, { k: 'err', name, fields }));
        }
        switch (name) {
            case 'Array': return this.newArray(args, st, n);
            case 'Set': case 'Map': {
                const mem = '((as const (Array Val Bool)) false)';
                if (!args.length || arg(args, 0).t === 'undef') return this.one(st, this.alloc(st, name === 'Set' ? { k: 'set', mem, size: '0', ord: this.decl('ord', '(Array Int Val)') } : { k: 'map', mem, size: '0', shape: null }));
                if (name === 'Set') return this.bind(this.refine(st, arg(args, 0)), (st, src) => this.setFrom(st, src, n));
                break;
            }
            case 'Promise': return this.newPromise(st, arg(args, 0), n);
            case 'Date': return this.one(st, this.alloc(st, { k: 'date' }));
            case 'Uint32Array': case 'Uint16Array': case 'Uint8Array': { const l = arg(args, 0); if (l.t === 'int' && this.valid(st, cmp('<=', '0', l.e))) return this.one(st, this.alloc(st, { k: 'arr', el: 'int', arr: '((as const (Array Int Int)) 0)', len: l.e, bits: parseInt(name.slice(4)) })); break; }
            case 'WeakMap': case 'WeakSet': break;
            case 'RegExp': { const s = arg(args, 0); if (s.t === 'str' && isLit(s.e)) { const fl = args[1] && args[1].v.t === 'str' ? args[1].v.e.slice(1, -1) : ''; return this.one(st, { t: 'regex', src: '/' + unLit(s.e) + '/' + fl }); } break; }
        }
        U('new ' + name, n);
    };
    P.nkey = function (st, v) { const e = this.box(v, st); return v.t === 'val' || v.t === 'fp' ? `(ite (vzero ${e}) (VInt 0) ${e})` : e; };
    P.setFrom = function (st, src, n) {
        if (src.t !== 'ref') U('new Set(' + src.t + ')', n);
        const c = this.cell(st, src);
        if (c.k === 'tup') {
            const s = this.alloc(st, { k: 'set', mem: '((as const (Array Val Bool)) false)', size: '0', ord: this.decl('ord', '(Array Int Val)') });
            let outs = this.one(st, null);
            for (const it of c.items) outs = this.bind(outs, st => this.callMethod({ t: 'bm', recv: s, name: 'add' }, [{ v: it }], st, n));
            return this.bind(outs, st => this.one(st, s));
        }
        const a = this.asArr(st, src, 'val');
        const mem = this.decl('smem', '(Array Val Bool)'), ord = this.decl('sord', '(Array Int Val)'), size = this.decl('ssize', 'Int'), first = this.decl('sfirst', '(Array Int Int)'), pos = this.decl('spos', '(Array Val Int)');
        const nz = e => `(ite (vzero ${e}) (VInt 0) ${e})`;
        st.assume(cmp('<=', '0', size), cmp('<=', size, a.len), `(=> (> ${a.len} 0) (> ${size} 0))`,
            // ord lists the distinct keys by first occurrence
            `(forall ((j Int)) (! (=> (and (<= 0 j) (< j ${size})) (and (<= 0 (select ${first} j)) (< (select ${first} j) ${a.len}) (= (select ${ord} j) ${nz(`(select ${a.arr} (select ${first} j))`)}) (select ${mem} (select ${ord} j)) (= (select ${pos} (select ${ord} j)) j))) :pattern ((select ${ord} j))))`,
            `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${a.len})) (let ((q ${nz(`(select ${a.arr} k)`)})) (and (select ${mem} q) (<= 0 (select ${pos} q)) (< (select ${pos} q) ${size}) (= (select ${ord} (select ${pos} q)) q) (<= (select ${first} (select ${pos} q)) k)))) :pattern ((select ${a.arr} k))))`,
            `(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j ${size})) (< (select ${first} i) (select ${first} j))) :pattern ((select ${first} i) (select ${first} j))))`,
            `(forall ((v Val)) (! (=> (select ${mem} v) (and (<= 0 (select ${pos} v)) (< (select ${pos} v) ${size}) (= (select ${ord} (select ${pos} v)) v))) :pattern ((select ${mem} v))))`);
        this.assumptions.add('assumed contract: new Set(array) holds the distinct elements in first-occurrence order');
        return this.one(st, this.alloc(st, { k: 'set', mem, size, ord }));
    };
    // ---------------- promises
    P.adopt = function (st, v) {
        return this.bind(this.deref(st, v), (st, v) => {
            if (v.t === 'prom') return this.one(st, v);
            const e = this.boxedTerm(st, v);
            if (e) return this.fork(st, `(thenable ${e})`).flatMap(({ st, b }) => b ? this.adopt(st, V.val(`${e} `)) : this.one(st, { t: 'prom', ok: true, v }));
            if (v.t === 'val') { st.assume(`(not (thenable (awres ${v.e})))`); return this.fork(st, `(awrej ${v.e})`).map(({ st, b }) => ({ st, v: b ? { t: 'prom', ok: false, v: V.val(`(preason ${v.e})`) } : { t: 'prom', ok: true, v: V.val(`(awres ${v.e})`) } })); }
            return this.one(st, { t: 'prom', ok: true, v });
        });
    };
    // the term of an object of unknown shape (which may have a then method)
    P.boxedTerm = function (st, v) { if (v.t === 'obj' || v.t === 'ofn') return v.e; if (v.t === 'ref') { const c = this.cell(st, v); if (c && c.boxed) return c.boxed; } return null; };
    P.awaitVal = function (st, v) {
        return this.bind(this.deref(st, v), (st, v) => {
            if (v.t === 'prom') { if (v.pending) return this.bind(this.settlePending(st, v), (st, p) => this.awaitVal(st, p)); this.logAwait(st, 'VUndef'); return v.ok ? this.one(st, v.v) : [{ st, thrown: v.v }]; }
            const bx = this.boxedTerm(st, v);
            if (bx) return this.fork(st, `(thenable ${bx})`).flatMap(({ st, b }) => { if (b) return this.awaitVal(st, V.val(`${bx} `)); this.logAwait(st, bx); if (this.onAwait) this.onAwait(st); return this.one(st, v); });
            if (v.t === 'val') {
                this.logAwait(st, v.e);
                if (this.onAwait) this.onAwait(st);
                st.assume(`(not (thenable (awres ${v.e})))`);
                return this.fork(st, `(awrej ${v.e})`).flatMap(({ st, b }) => b ? [{ st, thrown: V.val(`(preason ${v.e})`) }] : this.deref(st, V.val(`(awres ${v.e})`)));
            }
            if (this.onAwait) this.onAwait(st);
            { let e = 'VUndef'; try { e = this.box(v, st); } catch (x) { if (!x.unsup) throw x; } this.logAwait(st, e); }
            return this.one(st, v);
        });
    };
    P.logAwait = function (st, e) {
        let c = st.heap.get('await'); if (!c) return;
        st.heap.set('await', { ...c, n: add(c.n, '1'), vals: `(store ${c.vals} ${c.n} ${e})` });
    };
    P.newPromise = function (st, exec, n) {
        const cellRef = this.alloc(st, { k: 'pstate', settled: null });
        const mk = kind => this.alloc(st, { k: 'resolver', kind, target: cellRef.id, props: {} });
        return this.bind([{ st, v: [mk('resolve'), mk('reject')] }], (st, [res, rej]) => {
            const outs = this.call(st, exec, V.undef, [{ v: res }, { v: rej }], n);
            return outs.flatMap(o => {
                if (o.unsup) return [o];
                const c = o.st.heap.get(cellRef.id);
                if (c.settled) return this.one(o.st, c.settled);
                if (o.thrown) return this.one(o.st, { t: 'prom', ok: false, v: o.thrown });
                return this.one(o.st, { t: 'prom', pending: true, id: cellRef.id });
            });
        });
    };
    P.callResolver = function (st, c, args) {
        const tgt = st.heap.get(c.target);
        if (tgt.settled) return this.one(st, V.undef);
        const v = args[0] ? args[0].v : V.undef;
        if (c.kind === 'reject') { st.heap.set(c.target, { ...tgt, settled: { t: 'prom', ok: false, v } }); return this.one(st, V.undef); }
        return this.bind(this.adopt(st, v), (st, p) => { st.heap.set(c.target, { ...st.heap.get(c.target), settled: p }); return this.one(st, V.undef); });
    };
    P.promiseAll = function (st, v, n) {
        return this.bind(this.refine(st, v), (st, v) => {
            if (v.t !== 'ref') U('Promise.all', n);
            const c = this.cell(st, v);
            if (c.k === 'tup') {
                let outs = this.one(st, []);
                for (const it of c.items) outs = this.bind(outs, (st, acc) => this.bind(this.adopt(st, it), (st, p) => this.one(st, [...acc, p])));
                // a rejection already there wins at once, whatever the others are waiting for
                outs = this.bind(outs, (st, ps) => { const bad = ps.find(p => !p.pending && !p.ok); return this.one(st, bad ? { rej: bad } : { ps, acc: [] }); });
                for (let i = 0; i < c.items.length; i++) outs = this.bind(outs, (st, s) => s.rej ? this.one(st, s) : this.bind(s.ps[i].pending ? this.settlePending(st, s.ps[i], n) : this.one(st, s.ps[i]), (st, p) => this.one(st, p.ok ? { ps: s.ps, acc: [...s.acc, p.v] } : { rej: p })));
                outs = this.bind(outs, (st, s) => this.one(st, s.rej ? s : s.acc));
                return this.bind(outs, (st, acc) => this.one(st, acc.rej ? acc.rej : { t: 'prom', ok: true, v: this.alloc(st, { k: 'tup', items: acc }) }));
            }
            const a = this.asArr(st, v, 'val');
            const anyRej = `(exists ((k Int)) (and (<= 0 k) (< k ${a.len}) (awrej (select ${a.arr} k))))`;
            return this.fork(st, anyRej).map(({ st, b }) => {
                if (b) { const w = this.decl('rejk', 'Int'); st.assume(cmp('<=', '0', w), cmp('<', w, a.len), `(awrej (select ${a.arr} ${w}))`); return { st, v: { t: 'prom', ok: false, v: V.val(`(preason (select ${a.arr} ${w}))`) } }; }
                const r = this.decl('all', '(Array Int Val)');
                st.assume(`(forall ((k Int)) (! (and (= (select ${r} k) (awres (select ${a.arr} k))) (not (thenable (select ${r} k)))) :pattern ((select ${r} k))))`);
                return { st, v: { t: 'prom', ok: true, v: this.alloc(st, { k: 'arr', el: 'val', arr: r, len: a.len }) } };
            });
        });
    };
    // ---------------- timers: a trace of what was scheduled, and the ones still waiting
    P.setTimer = function (st, args, n) {
        const fn = arg(args, 0);
        return this.bind(this.refine(st, args[1] ? arg(args, 1) : V.int('0')), (st, ms) => {
            if (ms.t === 'undef') ms = V.int('0');
            if (ms.t !== 'int') U('setTimeout delay of kind ' + ms.t, n);
            const tr = st.heap.get('trace:%timer'), clk = st.heap.get('clock'), aw = st.heap.get('await');
            const h = this.alloc(st, { k: 'rec', fields: {}, timer: true }), q = st.heap.get('timers');
            st.heap.set('trace:%timer', { ...tr, n: add(tr.n, '1'), args: `(store ${tr.args} ${tr.n} ${this.argSeqVal(st, [{ v: ms }])})`, clk: `(store ${tr.clk} ${tr.n} ${clk.e})`, aw: `(store ${tr.aw} ${tr.n} ${aw.n})` });
            st.heap.set('clock', { ...clk, e: add(clk.e, '1') });
            st.heap.set('timers', { ...q, live: [...q.live, { id: h.id, fn, args: args.slice(2) }] });
            return this.one(st, h);
        });
    };
    P.clearTimer = function (st, v, n) {
        return this.bind(this.refine(st, v), (st, h) => {
            if (h.t === 'undef' || h.t === 'null') return this.one(st, V.undef);
            if (h.t !== 'ref' || !this.cell(st, h).timer) U('clearTimeout of ' + h.t, n);
            const q = st.heap.get('timers');
            st.heap.set('timers', { ...q, live: q.live.filter(x => x.id !== h.id) });
            return this.one(st, V.undef);
        });
    };
    // let time pass until the promise is settled: the waiting timers fire
    P.settlePending = function (st, p, n) {
        const c = st.heap.get(p.id);
        if (c.settled && !c.settled.pending) return this.one(st, c.settled);
        if (c.settled) return this.settlePending(st, c.settled, n);
        if (c.race) { const r = this.raceOf(st, c.race, n); if (!r.length) U('a race nobody finishes', n); return r; }
        const q = st.heap.get('timers');
        if (!q.live.length) U('a promise nothing settles is awaited', n);
        this.assumptions.add('a timer fires once while the code waits for the promise it settles (any waiting timer may be the next); nothing else runs in between');
        const w = q.live.length > 1 ? this.decl('timer', 'Int') : null;
        return q.live.flatMap((t, i) => {
            const s = w ? st.clone() : st; if (w) s.assume(eq(w, String(i)));
            s.heap.set('timers', { ...q, live: q.live.filter(x => x !== t) });
            return this.call(s, t.fn, V.undef, t.args, n).flatMap(o => o.unsup ? [o] : o.thrown ? U('exception in a timer callback', n) : this.settlePending(o.st, p, n));
        });
    };
    P.promiseRace = function (st, v, n) {
        return this.bind(this.refine(st, v), (st, v) => {
            if (v.t !== 'ref' || this.cell(st, v).k !== 'tup') U('Promise.race', n);
            let outs = this.one(st, []);
            for (const it of this.cell(st, v).items) outs = this.bind(outs, (st, acc) => this.bind(this.adopt(st, it), (st, p) => this.one(st, [...acc, p])));
            this.assumptions.add('in a race any contender may settle first, unless only one ever settles');
            // a contender may settle first, or (while a timer is waiting) the timer may
            return this.bind(outs, (st, ps) => {
                const r = this.raceOf(st, ps, n);
                // nobody can finish yet: decided when it is waited for
                return r.length ? r : this.one(st, { t: 'prom', pending: true, id: this.alloc(st, { k: 'pstate', settled: null, race: ps }).id });
            });
        });
    };
    P.raceOf = function (st, ps, n) {
        const w = this.decl('race', 'Int'), res = [];
        ps.forEach((p, i) => {
            const s = st.clone(); if (ps.length > 1) s.assume(eq(w, String(i)));
            if (p.pending && !s.heap.get(p.id).settled && !s.heap.get('timers').live.length) return; // nothing will settle it
            res.push(...(p.pending ? this.settlePending(s, p, n) : this.one(s, p)));
        });
        return res;
    };
    P.dateNow = function (st) {
        const c = st.heap.get('now');
        if (!c) U('Date.now');
        if (c.fixed) return this.one(st, V.int(c.fixed));
        const e = `(select ${c.vals} ${c.n})`;
        st.assume(`(<= 0 ${e})`, `(<= ${e} 8640000000000000)`);
        if (this.opts.monotoneClock) { this.assumptions.add('Date.now never goes backwards'); if (c.n !== '0') st.assume(`(<= (select ${c.vals} ${sub(c.n, "1")}) ${e})`); }
        st.heap.set('now', { ...c, n: add(c.n, '1') });
        return this.one(st, V.int(e));
    };
    // ---------------- environment callbacks (ghost trace)
    P.callCb = function (st, fv, c, thisv, args, n) {
        const tid = 'trace:' + c.name, tr = st.heap.get(tid);
        const a = this.argSeqVal(st, args);
        const clk = st.heap.get('clock'), aw = st.heap.get('await');
        st.heap.set(tid, { ...tr, n: add(tr.n, '1'), args: `(store ${tr.args} ${tr.n} ${a})`, clk: `(store ${tr.clk} ${tr.n} ${clk.e})`, aw: `(store ${tr.aw} ${tr.n} ${aw.n})` });
        st.heap.set('clock', { ...clk, e: add(clk.e, '1') });
        this.assumptions.add('callbacks may return or throw anything but do not mutate the arrays/records they are handed, nor re-enter the function');
        const k = tr.n;
        const ok = st => this.bind(this.one(st, c.ret.at(this, c, k, st)), (st, v) => this.deref(st, v));
        if (c.pure) return ok(st);
        return this.fork(st, `(${c.fthrow} ${k})`).flatMap(({ st, b }) => b ? [{ st, thrown: V.val(`(${c.fexc} ${k})`) }] : ok(st));
    };
    P.argSeqVal = function (st, args) {
        if (args.every(x => x.v)) {
            const base = this._argBase || (this._argBase = this.decl('argb', '(Array Int Val)'));
            let arr = '((as const (Array Int Val)) VUndef)';
            args.forEach((x, i) => { arr = `(store ${arr} ${i} ${this.box(x.v, st)})`; });
            return `(mkseq ${arr} ${args.length})`;
        }
        let s = this.argSeq(st, args); if (s.el !== 'val') s = this.toElArr(st, s, 'val');
        return `(mkseq ${s.arr} ${s.len})`;
    };
    P.callOpaque = function (st, fv, thisv, args, n) {
        const tr = st.heap.get('trace:%opaque');
        if (!tr) U('call of an unknown function', n);
        const a = this.argSeqVal(st, args), clk = st.heap.get('clock'), aw = st.heap.get('await');
        st.heap.set('trace:%opaque', { ...tr, n: add(tr.n, '1'), args: `(store ${tr.args} ${tr.n} ${a})`, clk: `(store ${tr.clk} ${tr.n} ${clk.e})`, aw: `(store ${tr.aw} ${tr.n} ${aw.n})`, callee: `(store ${tr.callee} ${tr.n} ${fv.e})` });
        st.heap.set('clock', { ...clk, e: add(clk.e, '1') });
        this.assumptions.add('callbacks may return or throw anything but do not mutate the arrays/records they are handed, nor re-enter the function');
        const k = tr.n;
        return this.fork(st, `(${tr.fthrow} ${k})`).flatMap(({ st, b }) => b ? [{ st, thrown: V.val(`(${tr.fexc} ${k})`) }] : this.deref(st, V.val(`(${tr.fret} ${k})`)));
    };
    // ---------------- methods
    P.callMethod = function (m, args, st, n) {
        const { recv, name } = m;
        if (recv.t === 'bm' || recv.t === 'bi' || recv.t === 'ofn' || (recv.t === 'ref' && ['clo', 'cb', 'resolver'].includes(this.cell(st, recv).k))) {
            const A = i => arg(args, i);
            if (name === 'call') return recv.t === 'bm' ? this.bind(this.refine(st, A(0)), (st, r) => this.callMethod({ t: 'bm', recv: r, name: recv.name }, args.slice(1), st, n)) : this.call(st, recv, args.length ? A(0) : V.undef, args.slice(1), n);
            if (name === 'apply') return this.bind(this.refine(st, A(1)), (st, lst) => (lst.t === 'undef' || lst.t === 'null') ? this.call(st, recv, A(0), [], n) : this.bind(this.toSpread(st, lst), (st, items) => this.call(st, recv, A(0), items, n)));
            if (name === 'bind') return this.one(st, { t: 'bound', fn: recv, thisv: args.length ? A(0) : V.undef, args: args.slice(1) });
            U('function method ' + name, n);
        }
        switch (recv.t) {
            case 'str': return this.strMethod(recv, name, args, st, n);
            case 'ref': {
                const c = this.cell(st, recv);
                if (c.k === 'arr' || c.k === 'tup') return this.arrMethod(recv, name, args, st, n);
                if (c.k === 'set') return this.setMethod(recv, name, args, st, n);
                if (c.k === 'map') return this.mapMethod(recv, name, args, st, n);
                if (c.k === 'rec' && name === 'hasOwnProperty') return this.hasOwn(st, recv, arg(args, 0), n);
                if (c.k === 'rec' && name === 'toString') return this.toStr(st, recv);
                if (c.k === 'wrap' && name === 'valueOf') return this.one(st, c.v);
                if (c.k === 'date' && (name === 'getTime' || name === 'valueOf')) return this.one(st, V.int(this.decl('time', 'Int')));
                break;
            }
            case 'int': case 'fp': case 'bool': case 'big': case 'sym': case 'real':
                if (name === 'valueOf') return this.one(st, recv);
                if (name === 'toString' && !args.length) return this.toStr(st, recv);
                if (name === 'toString' && recv.t === 'int') { const b = arg(args, 0); if (b.t === 'int' && b.e === '16') return this.hexText(st, recv, n); }
                break;
            case 'obj': if (name === 'hasOwnProperty') return this.hasOwn(st, recv, arg(args, 0), n); if (name === 'toUTCString' && !args.length) { this.assumptions.add('toUTCString of an object is a fixed string'); return this.one(st, V.str(`(vs (oprop ${recv.e} (VStr "%toUTCString")))`)); } if (name === 'valueOf') { this.assumptions.add('valueOf of an opaque object is a fixed value'); return this.one(st, V.val(`(oprop ${recv.e} (VStr "%valueOf"))`)); } break;
            case 'prom': return this.promMethod(recv, name, args, st, n);
            case 'regex': return this.regexMethod(recv, name, args, st, n);
        }
        U(`method ${recv.t === 'ref' ? this.cell(st, recv).k : recv.t}.${name}`, n);
    };
    // n.toString(16) of a count: lower case hexadecimal digits, no more of them than the size needs
    P.hexText = function (st, x, n) {
        if (!this.valid(st, cmp('<=', '0', x.e))) U('toString(16) of a possibly negative number', n);
        const r = this.decl('hex', 'String');
        st.assume(`(str.in_re ${r} (re.+ (re.union (re.range "0" "9") (re.range "a" "f"))))`);
        for (let k = 1; k <= 8; k++) st.assume(`(= (<= (str.len ${r}) ${k}) (< ${x.e} ${16n ** BigInt(k)}))`);
        this.assumptions.add('toString(16) of a count writes lower case hexadecimal digits, as many as its size needs');
        return this.one(st, V.str(r));
    };
    P.promMethod = function (p, name, args, st, n) {
        if (p.pending) return this.bind(this.settlePending(st, p, n), (st, q) => this.promMethod(q, name, args, st, n));
        const run = (fn, v) => {
            const outs = this.call(st, fn, V.undef, [{ v }], n);
            return outs.flatMap(o => o.unsup ? [o] : o.thrown ? [{ st: o.st, v: { t: 'prom', ok: false, v: o.thrown } }] : this.adopt(o.st, o.v));
        };
        const isFn = v => v && v.t !== 'undef' && v.t !== 'null';
        if (name === 'then') { const [f, g] = [args[0] && args[0].v, args[1] && args[1].v]; if (p.ok) return isFn(f) ? run(f, p.v) : this.one(st, p); return isFn(g) ? run(g, p.v) : this.one(st, p); }
        if (name === 'catch') { const f = args[0] && args[0].v; return p.ok || !isFn(f) ? this.one(st, p) : run(f, p.v); }
        if (name === 'finally') { const f = args[0] && args[0].v; if (!isFn(f)) return this.one(st, p); return this.call(st, f, V.undef, [], n).flatMap(o => o.unsup ? [o] : o.thrown ? [{ st: o.st, v: { t: 'prom', ok: false, v: o.thrown } }] : this.bind(this.adopt(o.st, o.v), (st, q) => this.one(st, q.ok ? p : q))); }
        U('promise method ' + name, n);
    };
    P.setMethod = function (r, name, args, st, n) {
        const c = this.cell(st, r);
        const a = () => arg(args, 0);
        switch (name) {
            case 'has': return this.bind(this.deref(st, a()), (st, v) => this.one(st, V.bool(`(select ${c.mem} ${this.nkey(st, v)})`)));
            case 'add': return this.bind(this.deref(st, a()), (st, v) => {
                const k = this.nkey(st, v), c = this.cell(st, r);
                return this.fork(st, `(select ${c.mem} ${k})`).flatMap(({ st, b }) => {
                    if (!b) st.heap.set(r.id, { ...c, mem: `(store ${c.mem} ${k} true)`, ord: `(store ${c.ord} ${c.size} ${k})`, size: add(c.size, '1') });
                    return this.one(st, r);
                });
            });
            case 'clear': st.heap.set(r.id, { ...c, mem: '((as const (Array Val Bool)) false)', size: '0' }); return this.one(st, V.undef);
        }
        U('Set.' + name, n);
    };
    P.mapMethod = function (r, name, args, st, n) {
        const c = this.cell(st, r);
        switch (name) {
            case 'has': return this.bind(this.deref(st, arg(args, 0)), (st, v) => this.one(st, V.bool(`(select ${c.mem} ${this.nkey(st, v)})`)));
            case 'get': return this.bind(this.deref(st, arg(args, 0)), (st, v) => {
                const k = this.nkey(st, v);
                return this.fork(st, `(select ${c.mem} ${k})`).flatMap(({ st, b }) => b ? this.deref(st, this.mapRead(st, c, k)) : this.one(st, V.undef));
            });
            case 'set': return this.bind(this.deref(st, arg(args, 0)), (st, kv) => this.bind(this.deref(st, arg(args, 1)), (st, v) => {
                const k = this.nkey(st, kv);
                st.heap.set(r.id, this.mapWrite(st, this.cell(st, r), k, v, n)); return this.one(st, r);
            }));
            case 'delete': return this.bind(this.deref(st, arg(args, 0)), (st, kv) => { const k = this.nkey(st, kv), c = this.cell(st, r); const had = `(select ${c.mem} ${k})`; st.heap.set(r.id, { ...c, mem: `(store ${c.mem} ${k} false)`, size: `(ite ${had} (- ${c.size} 1) ${c.size})` }); return this.one(st, V.bool(had)); });
            case 'clear': st.heap.set(r.id, { ...c, mem: '((as const (Array Val Bool)) false)', size: '0' }); return this.one(st, V.undef);
        }
        U('Map.' + name, n);
    };
    // values of a Map: one array per field, of the field's own kind
    const DEF = { val: 'VUndef', int: '0', str: '""', bool: 'false', fp: '(_ +zero 11 53)' };
    const mapEl = (eng, st, v) => { const e = eng.elemOf(st, v); return typeof e === 'string' && e in DEF ? e : 'val'; };
    P.mapShape = function (st, v) {
        if (v.t === 'ref') { const c = this.cell(st, v); if (c.k === 'rec') return { rec: Object.keys(c.fields).sort().map(x => [x, mapEl(this, st, c.fields[x])]) }; }
        return { one: mapEl(this, st, v) };
    };
    const shapeEls = sh => (sh.rec ? sh.rec : [['', sh.one]]);
    P.mapWrite = function (st, c, k, v, n) {
        const sh = this.mapShape(st, v);
        if (!c.shape) c = { ...c, shape: sh, f: Object.fromEntries(shapeEls(sh).map(([x, el]) => [x, `((as const (Array Val ${sortOf(el)})) ${DEF[el]})`])) };
        if (JSON.stringify(sh) !== JSON.stringify(c.shape)) U('heterogeneous Map values', n);
        const f = { ...c.f };
        const fld = x => (sh.rec ? this.cell(st, v).fields[x] : v);
        for (const [x, el] of shapeEls(sh)) f[x] = `(store ${f[x]} ${k} ${this.toElem(st, fld(x), el)})`;
        if (sh.rec) st.heap.set(v.id, { ...this.cell(st, v), frozen: true });
        return { ...c, f, mem: `(store ${c.mem} ${k} true)`, size: `(ite (select ${c.mem} ${k}) ${c.size} (+ ${c.size} 1))` };
    };
    P.mapRead = function (st, c, k) {
        if (!c.shape) { st.assume('false'); return V.undef; }
        const get = ([x, el]) => this.fromElem(st, `(select ${c.f[x]} ${k})`, el);
        if (c.shape.one) return get(['', c.shape.one]);
        return this.alloc(st, { k: 'rec', frozen: true, fields: Object.fromEntries(c.shape.rec.map(([x, el]) => [x, get([x, el])])) });
    };
    P.mapSorts = function (c) { return Object.fromEntries(shapeEls(c.shape).map(([x, el]) => [x, `(Array Val ${sortOf(el)})`])); };
    P.nativeStr = function (recv, name, args) {
        const lit = /^"([^"]|"")*"$/;
        const un = e => e.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-f]+)\}/g, (_, h) => String.fromCharCode(parseInt(h, 16)));
        if (!lit.test(recv.e)) return null;
        const as = [];
        for (const a of args) { if (!a.v) return null; const v = a.v; if (v.t === 'str' && lit.test(v.e)) as.push(un(v.e)); else if (v.t === 'int' && isNumLit(v.e)) as.push(Number(litVal(v.e))); else if (v.t === 'undef') as.push(undefined); else return null; }
        const s = un(recv.e);
        if (typeof s[name] !== 'function') return null;
        const r = s[name](...as);
        if (typeof r === 'string') return V.lit(r);
        if (typeof r === 'number') return V.num(r);
        if (typeof r === 'boolean') return V.bool(String(r));
        if (Array.isArray(r) && r.every(x => typeof x === 'string')) return { list: r };
        return null;
    };
    // the code unit at an index; in contracts about code units only, an uninterpreted function of string and index
    P.codeAt = function (s, i) {
        if (!this.opts.units) return `(str.to_code (str.at ${s} ${i}))`;
        if (!this._cu) { this._cu = true; this.solver.declare('(declare-fun cu!1 (String Int) Int)'); }
        return `(cu!1 ${s} ${i})`;
    };
    P.inText = function (at) { return and([cmp('<=', '0', at.i), cmp('<', at.i, this.strLen(at.s))]); };
    P.strMethod = function (s, name, args, st, n) {
        const nat = this.nativeStr(s, name, args);
        if (nat) return this.one(st, nat.list ? this.alloc(st, { k: 'tup', items: nat.list.map(x => V.lit(x)) }) : nat);
        let outs = this.one(st, []);
        for (const a of args) outs = this.bind(outs, (st, acc) => { if (!a.v) U('spread in string method', n); return this.bind(this.refine(st, a.v), (st, v) => this.one(st, [...acc, v])); });
        return this.bind(outs, (st, A) => this.strMethod2(s, name, A, st, n));
    };
    P.strMethod2 = function (s, name, A, st, n) {
        const L = this.strLen(s.e);
        const int = (v, d) => { if (!v || v.t === 'undef') return d; if (v.t === 'int') return v.e; U(`string.${name} argument ${v.t}`, n); };
        const one = v => this.one(st, v);
        const sub3 = (a, len) => V.str(a === '0' && len === L ? s.e : `(str.substr ${s.e} ${a} ${len})`);
        switch (name) {
            case 'toString': case 'valueOf': return one(s);
            case 'charAt': { const i = int(A[0], '0'); return one({ ...V.str(`(str.at ${s.e} ${i})`), at: { s: s.e, i, maybe: true } }); }
            case 'at': { const i = int(A[0], '0'); return this.fork(st, cmp('<', i, '0')).flatMap(({ st, b }) => { const j = b ? add(L, i) : i; return this.fork(st, and([cmp('<=', '0', j), cmp('<', j, L)])).flatMap(({ st, b }) => this.one(st, b ? V.str(`(str.at ${s.e} ${j})`) : V.undef)); }); }
            case 'charCodeAt': { const i = int(A[0], '0'); return this.fork(st, and([cmp('<=', '0', i), cmp('<', i, L)])).flatMap(({ st, b }) => { if (!b) return this.one(st, V.num(NaN)); const c = this.decl('cc', 'Int'); st.assume(`(= ${c} ${this.codeAt(s.e, i)})`, `(<= 0 ${c} 65535)`); return this.one(st, V.int(c)); }); }
            case 'codePointAt': {
                const i = int(A[0], '0');
                return this.fork(st, and([cmp('<=', '0', i), cmp('<', i, L)])).flatMap(({ st, b }) => {
                    if (!b) return this.one(st, V.undef);
                    const a = this.decl('cu', 'Int'), c2 = this.decl('cu2', 'Int'), r = this.decl('cp', 'Int');
                    st.assume(`(= ${a} ${this.codeAt(s.e, i)})`, `(<= 0 ${a} 65535)`, `(= ${c2} (ite (< (+ ${i} 1) ${L}) ${this.codeAt(s.e, `(+ ${i} 1)`)} (- 1)))`, `(<= (- 1) ${c2} 65535)`,
                        `(= ${r} (ite (and (<= 55296 ${a} 56319) (<= 56320 ${c2} 57343)) (+ (* (- ${a} 55296) 1024) (- ${c2} 56320) 65536) ${a}))`);
                    return this.one(st, V.int(r));
                });
            }
            case 'padStart': {
                const w = A[0] && A[0].t === 'int' && isNumLit(A[0].e) ? litVal(A[0].e) : null, f = A[1] ? (A[1].t === 'str' && isLit(A[1].e) ? unLit(A[1].e) : null) : ' ';
                if (w === null || f === null || f.length !== 1 || w > 64n || w < 0n) break;
                if (w <= 4n) { // one case per length
                    const go = (st, k) => BigInt(k) >= w ? this.one(st, s) : this.fork(st, eq(L, String(k))).flatMap(({ st, b }) => b ? this.one(st, V.str(this.concatStr([strLit(f.repeat(Number(w) - k)), s.e]))) : go(st, k + 1));
                    return go(st, 0);
                }
                return one(V.str(ite(cmp('<', L, String(w)), this.concatStr([`(str.substr ${strLit(f.repeat(Number(w)))} 0 ${sub(String(w), L)})`, s.e]), s.e)));
            }
            case 'slice': { const a = this.relIndex(st, A[0], L, '0'), b = this.relIndex(st, A[1], L, L); const len = sub(b, a); if (this.valid(st, cmp('<=', '0', len))) return one(sub3(a, len)); return one(V.str(`(str.substr ${s.e} ${a} (ite (< ${len} 0) 0 ${len}))`)); }
            case 'substring': {
                const cl = v => { const e = v; if (this.valid(st, and([cmp('<=', '0', e), cmp('<=', e, L)]))) return e; return `(ite (< ${e} 0) 0 (ite (> ${e} ${L}) ${L} ${e}))`; };
                const a = cl(int(A[0], '0')), b = cl(int(A[1], L));
                if (this.valid(st, cmp('<=', a, b))) return one(sub3(a, sub(b, a)));
                return one(V.str(`(ite (<= ${a} ${b}) (str.substr ${s.e} ${a} (- ${b} ${a})) (str.substr ${s.e} ${b} (- ${a} ${b})))`));
            }
            case 'lastIndexOf': if (A.length === 1 && A[0].t === 'str' && isLit(A[0].e) && unLit(A[0].e).length === 1) return one(V.int(this.lastIdx(st, s.e, A[0].e))); break;
            case 'indexOf': { if (A[0].t !== 'str') U('indexOf', n); const f = int(A[1], '0'); const from = f === '0' ? '0' : this.valid(st, and([cmp('<=', '0', f), cmp('<=', f, L)])) ? f : `(ite (< ${f} 0) 0 (ite (> ${f} ${L}) ${L} ${f}))`; return one(V.int(`(str.indexof ${s.e} ${A[0].e} ${from})`)); }
            case 'includes': { if (A[0].t !== 'str') U('includes', n); const f = int(A[1], '0'); if (f === '0') return one(V.bool(`(str.contains ${s.e} ${A[0].e})`)); const c = `(ite (< ${f} 0) 0 (ite (> ${f} ${L}) ${L} ${f}))`; return one(V.bool(`(str.contains (str.substr ${s.e} ${c} (- ${L} ${c})) ${A[0].e})`)); }
            case 'startsWith': { if (A[0].t !== 'str') U('startsWith', n); const f = int(A[1], '0'); if (f === '0') return one(V.bool(`(str.prefixof ${A[0].e} ${s.e})`)); const c = `(ite (< ${f} 0) 0 (ite (> ${f} ${L}) ${L} ${f}))`; return one(V.bool(`(str.prefixof ${A[0].e} (str.substr ${s.e} ${c} (- ${L} ${c})))`)); }
            case 'endsWith': { if (A[0].t !== 'str') U('endsWith', n); const f = int(A[1], L); if (f === L) return one(V.bool(`(str.suffixof ${A[0].e} ${s.e})`)); const c = `(ite (< ${f} 0) 0 (ite (> ${f} ${L}) ${L} ${f}))`; return one(V.bool(`(str.suffixof ${A[0].e} (str.substr ${s.e} 0 ${c}))`)); }
            case 'concat': { let e = [s.e]; for (const a of A) { if (a.t !== 'str') U('concat', n); e.push(a.e); } return one(V.str(this.concatStr(e))); }
            case 'trim': return one(V.str(`(strim ${s.e})`));
            case 'trimStart': case 'trimEnd': { const f = this.str1(name); return one(V.str(`(${f} ${s.e})`)); }
            case 'toLowerCase': case 'toLocaleLowerCase': return one(V.str(`(slower ${s.e})`));
            case 'toUpperCase': case 'toLocaleUpperCase': if (this.opts.hexCase) { st.assume(`(=> (str.in_re ${s.e} (re.* (re.union (re.range "0" "9") (re.range "a" "f")))) (and (str.in_re (supper ${s.e}) (re.* (re.union (re.range "0" "9") (re.range "A" "F")))) (= (str.len (supper ${s.e})) (str.len ${s.e}))))`); this.assumptions.add('toUpperCase maps hexadecimal digits to hexadecimal digits, one for one'); } return one(V.str(`(supper ${s.e})`));
            case 'replace': case 'replaceAll': {
                const [p, r] = A;
                if (p.t === 'regex' && r.t === 'str') { const ch = this.singleCharRegex(p.src); if (ch !== null && /^"[^"$]*"$/.test(r.e)) return one(V.str(`(str.replace_all ${s.e} ${strLit(ch)} ${r.e})`)); return this.regexReplace(s, p, r, st, n); }
                if (p.t === 'str' && r.t === 'str' && /^"[^"$]*"$/.test(r.e)) return one(V.str(`(${name === 'replace' ? 'str.replace' : 'str.replace_all'} ${s.e} ${p.e} ${r.e})`));
                break;
            }
            case 'repeat': { const k = int(A[0], '0'); if (isNumLit(k) && litVal(k) >= 0n && litVal(k) <= 16n) return one(V.str(this.concatStr(Array(Number(litVal(k))).fill(s.e)))); break; }
            case 'split': if (A[0].t === 'str' && A[0].e === '""' && A.length === 1) { const a = this.decl('units', '(Array Int String)'); st.assume(`(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${L})) (= (select ${a} k) (str.at ${s.e} k))) :pattern ((select ${a} k))))`); return one(this.alloc(st, { k: 'arr', el: 'str', arr: a, len: L, cat: s.e })); }
                if (A.length === 1 && A[0].t === 'str' && isLit(A[0].e)) { // the pieces between the places of a text
                    const sep = A[0].e, f = `spl!${Buffer.from(sep).toString('hex')}`; this._gsub = this._gsub || new Set();
                    if (!this._gsub.has(f)) { this._gsub.add(f); this.solver.declare(`(declare-fun ${f} (String) (Array Int String))`); this.solver.declare(`(declare-fun n!${f} (String) Int)`); }
                    const a = `(${f} ${s.e})`, k = `(n!${f} ${s.e})`, p0 = `(select ${a} 0)`, pz = `(select ${a} (- ${k} 1))`;
                    st.assume(cmp('<=', '1', k), cmp('<=', k, add(L, '1')), `(= (= ${k} 1) (not (str.contains ${s.e} ${sep})))`, implies(eq(k, '1'), eq(p0, s.e)), implies(cmp('<', '1', k), and([`(str.prefixof (str.++ ${p0} ${sep}) ${s.e})`, `(str.suffixof (str.++ ${sep} ${pz}) ${s.e})`])), implies(eq(k, '2'), eq(s.e, `(str.++ ${p0} ${sep} (select ${a} 1))`)), `(not (str.contains ${p0} ${sep}))`, `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${k})) (not (str.contains (select ${a} k) ${sep}))) :pattern ((select ${a} k))))`);
                    this.assumptions.add('the platform splits a text at a fixed text (String.prototype.split): the first and the last piece and their number');
                    return one(this.alloc(st, { k: 'arr', el: 'str', arr: a, len: k }));
                }
                break;
        }
        if (name === 'match' && A[0] && A[0].t === 'regex') return this.strMatch(st, s, A[0], n);
        if (name === 'search' && A[0]) { // looks from the start, whatever the pattern object remembers
            const re = A[0]; let t = null;
            if (re.t === 'regex' && re.src[0] === '<') t = `(${this.rxFun(re.src)} ${s.e})`;
            else if (re.t === 'regex' && !/y/.test(re.src.slice(re.src.lastIndexOf('/')))) { const R = require('./regex'), src = re.src.replace(/g(?=[a-z]*$)/, ''), lang = R.compile(src); t = R.plain(src, s.e) || (lang === null ? `(${this.rxFun(src)} ${s.e})` : `(str.in_re ${s.e} ${lang})`); }
            else if ((re.t === 'obj' || re.t === 'val') && this.valid(st, and([`((_ is VObj) ${re.e})`, eq(`(otag ${re.e})`, '"RegExp"')]))) t = this.rxFind(re.e, s.e);
            if (t !== null) return this.fork(st, t).flatMap(({ st, b }) => { if (!b) return this.one(st, V.int('-1')); const i = this.decl('found', 'Int'), R = require('./regex'), src = re.t === 'regex' ? re.src : '<'; st.assume(cmp('<=', '0', i), cmp('<=', i, L)); if (src[0] !== '<') { if (R.anchored(src)) st.assume(eq(i, '0')); for (const c of R.required(src).slice(0, 4)) st.assume(`(str.contains ${s.e} ${c})`); } return this.one(st, V.int(i)); });
        }
        U('string.' + name + (process.env.VERIF_DBG ? JSON.stringify(A[0]) : ''), n);
    };
    // one match of a non-global pattern: subject = before + matched + after
    P.strMatch = function (st, s, re, n, det) {
        if (re.src[0] === '<') { // a pattern about which nothing is known
            const gf = `rxg!${re.src.slice(1, -1)}`; this._rxg = this._rxg || new Set(); if (!this._rxg.has(gf)) { this._rxg.add(gf); this.solver.declare(`(declare-const ${gf} Bool)`); }
            return this.fork(st, `(${this.rxFun(re.src)} ${s.e})`).flatMap(({ st, b }) => {
                if (!b) return this.one(st, { t: 'null' });
                return this.fork(st, gf).flatMap(({ st, b: global }) => {
                    const arr = this.decl('mall', '(Array Int Val)'), len = this.decl('mcount', 'Int');
                    st.assume(cmp('<=', '1', len), `((_ is VStr) (select ${arr} 0))`);
                    if (global) return this.one(st, this.alloc(st, { k: 'arr', el: 'val', arr, len }));
                    const pre = this.decl('mpre', 'String'), w = this.decl('mtext', 'String'), post = this.decl('mpost', 'String');
                    st.assume(`(= ${s.e} (str.++ ${pre} ${w} ${post}))`, `(= (str.len ${s.e}) (+ (str.len ${pre}) (str.len ${w}) (str.len ${post})))`, eq(`(select ${arr} 0)`, `(VStr ${w})`));
                    return this.one(st, this.alloc(st, { k: 'arr', el: 'val', arr, len, props: { index: V.int(`(str.len ${pre})`), input: s } }));
                });
            });
        }
        const R = require('./regex'), flags = re.src.slice(re.src.lastIndexOf('/') + 1);
        if (/[gy]/.test(flags)) U('string.match ' + re.src, n);
        const lang = R.compile(re.src), test = lang === null ? `(${this.rxFun(re.src)} ${s.e})` : R.plain(re.src, s.e) || `(str.in_re ${s.e} ${lang})`;
        const groups = R.groupsOf(re.src); if (groups === null) U('string.match ' + re.src, n);
        const sh = R.shape(re.src), L0 = this.strLen(s.e);
        return this.fork(st, test).flatMap(({ st, b }) => {
            const inC = sh && sh.cls ? i => { const c = this.codeAt(s.e, i); return or(sh.rs.map(([x, y]) => x === y ? eq(c, String(x)) : and([cmp('<=', String(x), c), cmp('<=', c, String(y))]))); } : null;
            if (!b) {
                if (inC && sh.eos && !sh.bos && sh.lo === 1) st.assume(or([eq(L0, '0'), not(inC(add(L0, '-1')))]));
                return this.one(st, V.null || { t: 'null' });
            }
            const part = what => { if (!det) return this.decl(what, 'String'); this._mp = this._mp || new Map(); const k = what + re.src + s.e; if (!this._mp.has(k)) this._mp.set(k, this.decl(what, 'String')); return this._mp.get(k); };
            const pre = sh && sh.bos ? '""' : part('mpre'), w = part('mtext'), post = sh && sh.eos ? '""' : part('mpost');
            st.assume(`(= ${s.e} (str.++ ${pre} ${w} ${post}))`, `(= (str.len ${s.e}) (+ (str.len ${pre}) (str.len ${w}) (str.len ${post})))`);
            if (sh) {
                st.assume(`(str.in_re ${w} ${sh.body})`);
                if (sh.cls) { // greedy and leftmost
                    const a = `(str.len ${pre})`, z = add(a, `(str.len ${w})`);
                    if (sh.eos && !sh.bos && sh.lo === 1) st.assume(or([eq(a, '0'), not(inC(add(a, '-1')))]), cmp('<', a, z), eq(z, L0));
                    st.assume(`(forall ((k Int)) (! (=> (and (<= ${a} k) (< k ${z})) ${inC('k')}) :pattern (${this.codeAt(s.e, 'k')})))`);
                    if (!sh.eos) st.assume(or([cmp('<=', L0, z), not(inC(z))]));
                    if (!sh.eos) st.assume(`(not (str.in_re ${post} (re.++ ${sh.cls} re.all)))`);
                    if (!sh.bos && sh.lo === 1) st.assume(sh.eos ? `(not (str.in_re ${pre} (re.++ re.all ${sh.cls})))` : `(not (str.in_re ${pre} (re.++ re.all ${sh.cls} re.all)))`);
                    if (!sh.bos && sh.lo === 0 && !sh.eos) st.assume(eq(pre, '""'));
                }
            }
            const items = [V.str(w)];
            for (let g = 0; g < groups; g++) { const e = this.decl('mgroup', 'Val'); st.assume(`(or (= ${e} VUndef) ((_ is VStr) ${e}))`); items.push(V.val(e)); }
            this.assumptions.add('regular expressions: a match is described by its text, its place and, for single repeated classes, greediness and leftmostness');
            return this.one(st, this.alloc(st, { k: 'tup', items, pre, post, props: { index: V.int(`(str.len ${pre})`), input: s } }));
        });
    };
    P.singleCharRegex = function (src) { const m = /^\/(\\?.)\/g$/s.exec(src); if (!m) return null; if (m[1].length === 2) return /[\\\/.*+?()[\]{}|^$"'-]/.test(m[1][1]) ? m[1][1] : null; return /[.*+?()[\]{}|^$\\]/.test(m[1]) ? null : m[1]; };
    // every character of a class replaced by a text, as the platform does it
    P.gsub = function (rs, s, r) {
        const o = require('./regex').norm(rs);
        if (o.length === 1 && o[0][0] === o[0][1]) return `(str.replace_all ${s} ${strLit(String.fromCharCode(o[0][0]))} ${r})`;
        const f = `gsub!${o.flat().join('_')}`;
        this._gsub = this._gsub || new Set();
        if (!this._gsub.has(f)) { this._gsub.add(f); this.solver.declare(`(declare-fun ${f} (String String) String)`); }
        this.assumptions.add('the platform replaces every character of a class (String.prototype.replace with a global class)');
        return `(ite (= ${s} "") "" (${f} ${s} ${r}))`;
    };
    // the run of characters of a class at the front or the back removed, as the platform does it
    P.strip = function (side, rs, s) {
        const f = `strip!${side}!${require('./regex').norm(rs).flat().join('_')}`;
        this._gsub = this._gsub || new Set();
        if (!this._gsub.has(f)) { this._gsub.add(f); this.solver.declare(`(declare-fun ${f} (String) String)`); }
        this.assumptions.add('the platform removes the run of characters of a class at the front or the back (String.prototype.replace with such a pattern)');
        return `(ite (= ${s} "") "" (${f} ${s}))`;
    };
    P.regexReplace = function (s, p, r, st, n) {
        const plainLit2 = x => x.t === 'str' && /^"[^"$]*"$/.test(x.e);
        const plainLit = x => x.t === 'str' && isLit(x.e);
        const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(p.src);
        if (plainLit(s) && plainLit(r)) return this.one(st, V.lit(unLit(s.e).replace(new RegExp(m[1], m[2]), unLit(r.e))));
        if (r.t === 'str' && /^"[^"$]*"$/.test(r.e) && /^\^[\w ]+$/.test(m[1])) { const t = m[1].slice(1); return this.one(st, V.str(`(ite (str.prefixof ${strLit(t)} ${s.e}) (str.++ ${r.e} (str.substr ${s.e} ${t.length} (- (str.len ${s.e}) ${t.length}))) ${s.e})`)); }
        const lc = require('./regex').lookClass(p.src);
        if (lc && plainLit2(r)) { // insert a fixed text before every character of a class
            const f = `insb!${lc.flat().join('_')}!${Buffer.from(r.e).toString('hex')}`;
            if (!this._insb) this._insb = new Set();
            if (!this._insb.has(f)) { this._insb.add(f); this.solver.declare(`(declare-fun ${f} (String) String)`); }
            return this.one(st, V.str(`(${f} ${s.e})`));
        }
        if (plainLit2(r)) {
            const R = require('./regex'), sh = R.shape(p.src), one = R.oneOf(p.src);
            if (r.e === '""' && R.emptyOnly(p.src)) return this.one(st, s);
            // every character of a class (a run of them vanishes the same way one by one)
            if (m[2] === 'g' && one && sh && !sh.bos && !sh.eos && (!sh.cls || r.e === '""')) return this.one(st, V.str(this.gsub(one, s.e, r.e)));
            // runs of a class at both ends: the front one, then the back one
            const ends = m[2] === 'g' && r.e === '""' && R.bothEnds(p.src);
            if (ends) return this.bind(this.regexReplace(s, { ...p, src: ends[0] }, r, st, n), (st, v) => this.regexReplace(v, { ...p, src: ends[1] }, r, st, n));
            if (this.opts.strips && m[2] === '' && r.e === '""' && sh && sh.rs && sh.bos !== sh.eos && sh.lo === 1) return this.one(st, V.str(this.strip(sh.bos ? 'front' : 'back', sh.rs, s.e)));
            // one greedy run of a class at the front or the back
            if (m[2] === '' && sh && sh.cls && (sh.bos || sh.eos) && (sh.lo === 1 || sh.bos)) return this.strMatch(st, s, p, n, true).map(({ st, v }) => {
                if (v.t === 'null') return { st, v: s };
                const t = st.heap.get(v.id); return { st, v: V.str(this.concatStr([t.pre, r.e, t.post].filter(x => x !== '""'))) };
            });
        }
        // otherwise: some fixed string depending only on the subject, the pattern and the replacement
        if (r.t !== 'str') U('regex replace ' + p.src, n);
        this._rr = this._rr || new Map(); if (!this._rr.has(p.src)) this._rr.set(p.src, this.declFun('rrep' + this._rr.size, ['String', 'String'], 'String'));
        this.assumptions.add('uninterpreted: String.prototype.replace with ' + p.src);
        return this.one(st, V.str(`(${this._rr.get(p.src)} ${s.e} ${r.e})`));
    };
    P.regexMethod = function (r, name, args, st, n) {
        if (name === 'test' && r.src[0] !== '<' && !/g|y/.test(r.src.slice(r.src.lastIndexOf('/')))) {
            return this.bind(this.toStr(st, arg(args, 0)), (st, v) => {
                const cs = this.opts.units && v.at && require('./regex').oneOf(r.src);
                if (cs) return this.one(st, V.bool(and([v.at.maybe ? this.inText(v.at) : 'true', or(cs.map(([a, b]) => { const c = this.codeAt(v.at.s, v.at.i); return a === b ? eq(c, String(a)) : and([cmp('<=', String(a), c), cmp('<=', c, String(b))]); }))])));
                const pl = require('./regex').plain(r.src, v.e); if (pl) return this.one(st, V.bool(pl));
                const rx = require('./regex').compile(r.src);
                if (rx === null) { const f = this.rxFun(r.src); return this.one(st, V.bool(`(${f} ${v.e})`)); }
                const t = `(str.in_re ${v.e} ${rx})`; for (const c of require('./regex').required(r.src).slice(0, 4)) if (!isLit(v.e)) st.assume(`(=> ${t} (str.contains ${v.e} ${c}))`);
                return this.one(st, V.bool(t));
            });
        }
        if (name === 'exec') return this.bind(this.toStr(st, arg(args, 0)), (st, v) => this.strMatch(st, v, r, n));
        U('regex.' + name, n);
    };
    // the last place of a one-character text, or -1
    P.lastIdx = function (st, s, c) {
        if (!this._lastIdx) this._lastIdx = this.declFun('lastidx', ['String', 'String'], 'Int');
        const r = `(${this._lastIdx} ${s} ${c})`;
        st.assume(`(ite (str.contains ${s} ${c}) (and (<= 0 ${r}) (< ${r} (str.len ${s})) (= (str.at ${s} ${r}) ${c}) (not (str.contains (str.substr ${s} (+ ${r} 1) (str.len ${s})) ${c}))) (= ${r} (- 1)))`);
        return r;
    };
    // does the pattern (an object) occur in the text
    P.rxFind = function (re, s) { if (!this._rxfind) { this._rxfind = this.declFun('rxfind', ['Val', 'String'], 'Bool'); this.assumptions.add('whether a pattern object occurs in a text is a fixed, otherwise unknown fact'); } return `(${this._rxfind} ${re} ${s})`; };
    P.rxFun = function (src) { this._rx = this._rx || {}; if (!this._rx[src]) { this._rx[src] = this.declFun('rx', ['String'], 'Bool'); this.assumptions.add('regular expression ' + src + ' is an uninterpreted predicate'); } return this._rx[src]; };

    P.arrMethod = function (r, name, args, st, n) {
        const c = this.cell(st, r);
        const A = i => arg(args, i);
        switch (name) {
            case 'push': {
                let outs = this.one(st, null);
                for (const a of args) {
                    outs = this.bind(outs, st => {
                        if (a.v) return this.bind(this.deref(st, a.v), (st, v) => { this.push(st, r, v); return this.one(st, null); });
                        const cur = this.cell(st, r); this.chkMut(cur);
                        const x = this.concatArr2(st, this.asArr(st, r), a.spread); st.heap.set(r.id, { ...cur, k: 'arr', items: undefined, el: x.el, arr: x.arr, len: x.len, cat: undefined }); return this.one(st, null);
                    });
                }
                return this.bind(outs, st => this.one(st, V.int(this.arrLen(st, r))));
            }
            case 'pop': case 'shift': {
                this.chkMut(c);
                if (c.k === 'tup') { if (!c.items.length) return this.one(st, V.undef); const it = c.items.slice(); const v = name === 'pop' ? it.pop() : it.shift(); st.heap.set(r.id, { ...c, items: it }); return this.deref(st, v); }
                return this.fork(st, cmp('<', '0', c.len)).flatMap(({ st, b }) => {
                    if (!b) return this.one(st, V.undef);
                    const nl = sub(c.len, '1');
                    if (name === 'pop') { const v = this.fromElem(st, `(select ${c.arr} ${nl})`, c.el); st.heap.set(r.id, { ...c, len: nl, cat: undefined }); return this.deref(st, v); }
                    const v = this.fromElem(st, `(select ${c.arr} 0)`, c.el);
                    const s = this.sliceArr(st, c, '1', nl);
                    st.heap.set(r.id, { ...c, arr: s.arr, len: nl, cat: c.cat !== undefined ? `(str.substr ${c.cat} (str.len (select ${c.arr} 0)) (- (str.len ${c.cat}) (str.len (select ${c.arr} 0))))` : undefined });
                    return this.deref(st, v);
                });
            }
            case 'unshift': {
                this.chkMut(c);
                if (c.k === 'tup' && args.every(a => a.v)) { st.heap.set(r.id, { ...c, items: [...args.map(a => a.v), ...c.items] }); return this.one(st, V.int(String(c.items.length + args.length))); }
                const x = this.concatArr2(st, this.argSeq(st, args), this.asArr(st, r)); st.heap.set(r.id, { ...c, k: 'arr', items: undefined, el: x.el, arr: x.arr, len: x.len, cat: undefined }); return this.one(st, V.int(x.len));
            }
            case 'slice': {
                if (c.k === 'tup') { const lit = v => !v || v.t === 'undef' || (v.t === 'int' && isNumLit(v.e)); const x = args[0] && args[0].v, y = args[1] && args[1].v; if (lit(x) && lit(y)) { const g = v => v && v.t === 'int' ? Number(litVal(v.e)) : undefined; return this.one(st, this.alloc(st, { k: 'tup', items: c.items.slice(g(x), g(y)) })); } }
                return this.bind(this.refine(st, A(0)), (st, x) => this.bind(this.refine(st, A(1)), (st, y) => {
                    const a = this.asArr(st, r);
                    const s = this.relIndex(st, x, a.len, '0'), e = this.relIndex(st, y, a.len, a.len);
                    const d = sub(e, s); const len = this.valid(st, cmp('<=', '0', d)) ? d : `(ite (< ${d} 0) 0 ${d})`;
                    const nc = this.sliceArr(st, a, s, len);
                    if (s === '0' && e === a.len) nc.cat = c.cat;
                    nc.from = { arr: a.arr, start: s };
                    return this.one(st, this.alloc(st, nc));
                }));
            }
            case 'splice': return this.splice(r, args, st, n);
            case 'concat': {
                let outs = this.one(st, null); const items = [];
                outs = this.one(st, [{ spreadRef: r }]);
                for (const a of args) outs = this.bind(outs, (st, acc) => { if (!a.v) U('concat spread', n); return this.bind(this.refine(st, a.v), (st, v) => this.one(st, [...acc, v.t === 'ref' && ['arr', 'tup'].includes(this.cell(st, v).k) ? { spreadRef: v } : { v }])); });
                return this.bind(outs, (st, acc) => {
                    let all = [];
                    for (const x of acc) { if (x.v) { all.push({ v: x.v }); continue; } const cc = this.cell(st, x.spreadRef); if (cc.k === 'tup') all.push(...cc.items.map(v => ({ v }))); else all.push({ spread: { el: cc.el, arr: cc.arr, len: cc.len } }); }
                    return this.one(st, this.arrayFromArgs(st, all));
                });
            }
            case 'join': {
                const sep = A(0);
                const se = sep.t === 'undef' ? '","' : sep.t === 'str' ? sep.e : U('join', n);
                if (c.k === 'tup') {
                    let outs = this.one(st, []);
                    c.items.forEach((v, i) => { outs = this.bind(outs, (st, acc) => this.bind(this.deref(st, v), (st, v) => this.bind(v.t === 'undef' || v.t === 'null' ? this.one(st, V.lit('')) : this.toStr(st, v), (st, x) => this.one(st, i ? [...acc, se, x.e] : [x.e])))); });
                    return this.bind(outs, (st, p) => this.one(st, V.str(this.concatStr(p))));
                }
                if (se === '""' && c.cat !== undefined) return this.one(st, V.str(c.cat));
                if (c.el === 'str') return this.one(st, V.str(`(joinFn ${c.arr} ${c.len} ${se})`.replace('joinFn', this.joinFn())));
                U('join of a symbolic array', n); break;
            }
            case 'fill': { this.chkMut(c); if (args.length === 1) return this.bind(this.deref(st, A(0)), (st, v) => { if (c.k === 'tup') { st.heap.set(r.id, { ...c, items: c.items.map(() => v) }); return this.one(st, r); } const e = this.elemOf(st, v); const el = typeof e === 'object' ? 'val' : e; st.heap.set(r.id, { ...c, el, arr: `((as const (Array Int ${sortOf(el)})) ${this.toElem(st, v, el)})`, cat: undefined }); return this.one(st, r); }); break; }
            case 'reverse': {
                this.chkMut(c);
                if (c.k === 'tup') { st.heap.set(r.id, { ...c, items: c.items.slice().reverse() }); return this.one(st, r); }
                const a = this.decl('rev', `(Array Int ${sortOf(c.el)})`);
                st.assume(`(forall ((k Int)) (! (= (select ${a} k) (select ${c.arr} (- ${sub(c.len, '1')} k))) :pattern ((select ${a} k))))`);
                st.heap.set(r.id, { ...c, arr: a, cat: undefined }); return this.one(st, r);
            }
            case 'indexOf': case 'includes': {
                return this.bind(this.deref(st, A(0)), (st, v) => {
                    if (args.length > 1) U(name + ' with start', n);
                    if (c.k === 'tup') {
                        const eqs = c.items.map(x => name === 'includes' ? this.sameValZero(st, x, v) : this.strictEq(st, x, v));
                        if (name === 'includes') return this.one(st, V.bool(or(eqs)));
                        let e = '(- 1)'; for (let i = eqs.length - 1; i >= 0; i--) e = ite(eqs[i], String(i), e); return this.one(st, V.int(e));
                    }
                    const el = this.fromElemPure(`(select ${c.arr} k)`, c.el);
                    const q = name === 'includes' ? this.sameValZero(st, el, v) : this.strictEq(st, el, v);
                    const ex = `(exists ((k Int)) (and (<= 0 k) (< k ${c.len}) ${q}))`;
                    if (name === 'includes') return this.one(st, V.bool(ex));
                    return this.fork(st, ex).map(({ st, b }) => { if (!b) return { st, v: V.int('(- 1)') }; const w = this.decl('ix', 'Int'); const qq = i => name && q.replaceAll(`(select ${c.arr} k)`, `(select ${c.arr} ${i})`); st.assume(cmp('<=', '0', w), cmp('<', w, c.len), qq(w), `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${w})) (not ${q})) :pattern ((select ${c.arr} k))))`); return { st, v: V.int(w) }; });
                });
            }
            case 'at': return this.bind(this.toNumber(st, A(0)), (st, i) => this.fork(st, cmp('<', i.e, '0')).flatMap(({ st, b }) => this.getIndex(st, r, V.int(b ? add(this.arrLen(st, r), i.e) : i.e))));
            case 'forEach': case 'map': case 'filter': case 'some': case 'every': case 'find': case 'findIndex': case 'reduce': case 'reduceRight': case 'flatMap': return this.hof(st, name, r, args, n);
            case 'flat': if (!args.length) return this.flat(st, r, n); break;
            case 'toString': return this.one(st, V.str(this.decl('astr', 'String')));
            case 'sort': return this.sortArr(st, r, args, n);
            case 'keys': case 'values': case 'entries': break;
        }
        U('array.' + name, n);
    };
    P.joinFn = function () {
        if (!this._join) { this._join = this.name('joinS'); this.solver.declare(`(define-fun-rec ${this._join} ((a (Array Int String)) (n Int) (sep String)) String (ite (<= n 0) "" (ite (= n 1) (select a 0) (str.++ (${this._join} a (- n 1) sep) sep (select a (- n 1))))))`); }
        return this._join;
    };
    P.fromElemPure = function (e, el) { return el === 'val' ? V.val(e) : el === 'int' ? V.int(e) : el === 'str' ? V.str(e) : el === 'bool' ? V.bool(e) : el === 'fp' ? V.fp(e) : U('pure element'); };
    P.sameValZero = function (st, a, b) { if (a.t === 'val' || b.t === 'val' || a.t === 'fp' || b.t === 'fp') { const x = this.box(a, st), y = this.box(b, st); return or([eq(x, y), and([`(vzero ${x})`, `(vzero ${y})`])]); } return this.strictEq(st, a, b); };
    P.flat = function (st, r, n) {
        const c = this.cell(st, r);
        if (c.k !== 'tup') U('flat of a symbolic array', n);
        let outs = this.one(st, []);
        for (const it of c.items) outs = this.bind(outs, (st, acc) => this.bind(this.refine(st, it), (st, v) => this.one(st, [...acc, v.t === 'ref' && ['arr', 'tup'].includes(this.cell(st, v).k) ? { ref: v } : { v }])));
        return this.bind(outs, (st, acc) => {
            let all = [];
            for (const x of acc) { if (x.v) { all.push(x); continue; } const cc = this.cell(st, x.ref); if (cc.k === 'tup') all.push(...cc.items.map(v => ({ v }))); else all.push({ spread: { el: cc.el, arr: cc.arr, len: cc.len } }); }
            return this.one(st, this.arrayFromArgs(st, all));
        });
    };
    P.splice = function (r, args, st, n) {
        const c0 = this.cell(st, r); this.chkMut(c0);
        return this.bind(this.toNumber(st, arg(args, 0)), (st, s) => this.bind(args.length > 1 ? this.toNumber(st, arg(args, 1)) : this.one(st, null), (st, d) => {
            const a = this.asArr(st, r);
            const start = this.relIndex(st, s, a.len, '0');
            const rest = sub(a.len, start);
            let del = d === null ? rest : d.e;
            if (d !== null && !this.valid(st, and([cmp('<=', '0', del), cmp('<=', del, rest)]))) del = `(ite (< ${del} 0) 0 (ite (> ${del} ${rest}) ${rest} ${del}))`;
            const ins = args.slice(2); if (!ins.every(x => x.v)) U('splice spread', n);
            const removed = this.alloc(st, this.sliceArr(st, a, start, del));
            let el = a.el; let terms;
            if (!ins.every(x => this.canElem(st, x.v, el))) { const t = this.toArrCell(st, r, 'val'); el = 'val'; a.arr = t.arr; }
            terms = ins.map(x => this.toElem(st, x.v, el));
            const na = this.decl('spl', `(Array Int ${sortOf(el)})`);
            let mid = `(select ${a.arr} (+ k ${sub(del, String(ins.length))}))`;
            for (let i = terms.length - 1; i >= 0; i--) mid = `(ite (= k ${add(start, String(i))}) ${terms[i]} ${mid})`;
            st.assume(`(forall ((k Int)) (! (= (select ${na} k) (ite (< k ${start}) (select ${a.arr} k) ${mid})) :pattern ((select ${na} k))))`);
            // also let facts about the old array reach the new one
            st.assume(`(forall ((k Int)) (! (=> (and (<= ${start} k) (< k ${del} )) true) :pattern ((select ${a.arr} k))))`);
            st.heap.set(r.id, { ...c0, k: 'arr', items: undefined, el, arr: na, len: add(sub(a.len, del), String(ins.length)), cat: undefined });
            return this.one(st, removed);
        }));
    };
    P.sortArr = function (st, r, args, n) {
        // assumed contract of Array.prototype.sort: a permutation of the input
        const c = this.cell(st, r); this.chkMut(c);
        const a = this.asArr(st, r);
        const na = this.decl('sorted', `(Array Int ${sortOf(a.el)})`), p = this.decl('perm', '(Array Int Int)'), q = this.decl('perminv', '(Array Int Int)');
        st.assume(`(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${a.len})) (and (<= 0 (select ${p} k)) (< (select ${p} k) ${a.len}) (= (select ${q} (select ${p} k)) k) (= (select ${na} k) (select ${a.arr} (select ${p} k))))) :pattern ((select ${na} k))))`,
            `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${a.len})) (and (<= 0 (select ${q} k)) (< (select ${q} k) ${a.len}) (= (select ${p} (select ${q} k)) k))) :pattern ((select ${a.arr} k))))`);
        this.assumptions.add('assumed contract: Array.prototype.sort permutes its receiver (ordering not modelled)');
        st.heap.set(r.id, { ...c, ...a, k: 'arr', items: undefined, arr: na, cat: undefined });
        return this.one(st, r);
    };
};
