'use strict';
// Symbolic executor / verification-condition generator for the TypeScript
// fragment used by the functions under contract.  Runs on the syntax trees of
// the sources in /repo as they are now; nothing is transcribed.
const { ts, REPO } = require('./loader');
const path = require('path');
const T = require('./values');
const { V, and, or, not, implies, eq, ite, add, sub, mul, cmp, strLit, fpLit, isNumLit, litVal, intLit, FP, PRELUDE, sortOf, sameElem, SAFE } = T;
const K = ts.SyntaxKind;

// the code of a one-character literal; undefined for other literals, null for other terms
function litCode(e) {
    if (!/^"([^"]|"")*"$/.test(e)) return null;
    const m = /^"(?:(""|[^"\\])|\\u\{([0-9a-fA-F]+)\})"$/.exec(e);
    return m ? (m[2] ? parseInt(m[2], 16) : m[1].charCodeAt(0)) : undefined;
}
class Unsupported extends Error { constructor(msg, node) { super(msg + (node ? ' @ ' + where(node) : '')); this.unsup = true; } }
class Budget extends Error {}
function where(node) {
    try {
        const sf = node.getSourceFile();
        const p = sf.getLineAndCharacterOfPosition(node.getStart());
        return path.relative(REPO, sf.fileName) + ':' + (p.line + 1);
    } catch { return '?'; }
}

const Q = /\((forall|exists) /;
let uid = 0;
class St {
    constructor() { this.heap = new Map(); this.pc = []; this.frame = null; this.stack = []; }
    clone() { const s = new St(); s.heap = new Map(this.heap); s.pc = this.pc.slice(); s.frame = this.frame; s.stack = this.stack; return s; }
    assume(...fs) { for (const f of fs) if (f !== 'true') this.pc.push(f); return this; }
}

class Engine {
    constructor(loader, solver, opts = {}) {
        this.loader = loader; this.solver = solver; this.opts = opts;
        this.n = 0; this.feas = 0;
        this.trusted = opts.trusted || {};       // key file#name -> handler(eng, st, args, node)
        this.summaries = opts.summaries || new Map(); // key file#name -> contract
        this.assumptions = new Set();
        this.called = new Set();
        this.typing = new Set(); // facts true of every value of a kind, not conditions on it
        this.inlined = new Set();
        this.sideObls = [];
        this.templates = [];
        this.maxOuts = opts.maxOuts || 4000;
        this.deadline = opts.deadline || (Date.now() + 240000);
        for (const d of PRELUDE) solver.declare(d);
    }
    // ---------- basics
    name(p) { return `${p.replace(/[^A-Za-z0-9_]/g, '_')}!${++this.n}`; }
    decl(p, sort) { const n = this.name(p); this.solver.declare(`(declare-const ${n} ${sort})`); return n; }
    declFun(p, args, sort) { const n = this.name(p); this.solver.declare(`(declare-fun ${n} (${args.join(' ')}) ${sort})`); return n; }
    newId() { return ++uid + 1000; }
    alloc(st, cell) { const id = this.newId(); st.heap.set(id, cell); return V.ref(id); }
    cell(st, v) { return st.heap.get(v.id); }
    tick() { if (Date.now() > this.deadline) throw new Budget('time budget exhausted'); }
    // feasibility and side conditions are decided under a resource limit (not wall time), so
    // that a loaded machine explores the same paths; the quantifier-free part is tried first
    sat(fs) {
        this.tick(); this.feas++;
        const qf = fs.filter(f => !Q.test(f));
        if (qf.length < fs.length) { if (this.solver.check(qf, { timeout: 3000, rlimit: 1500000 }) === 'unsat') return false; }
        else return this.solver.check(fs, { timeout: 3000, rlimit: 1500000 }) !== 'unsat';
        return this.solver.check(fs, { timeout: 2000, rlimit: this.opts.feasRl || 250000 }) !== 'unsat';
    }
    feasible(st, extra = []) { return this.sat([...st.pc, ...extra]); }
    valid(st, f) { if (f === 'true') return true; if (f === 'false') return !this.feasible(st); this.tick(); const fs = [...st.pc, not(f)], qf = fs.filter(f => !Q.test(f)); if (this.solver.check(qf, { timeout: 3000, rlimit: 1500000 }) === 'unsat') return true; return qf.length < fs.length && this.solver.check(fs, { timeout: 4000, rlimit: 2000000 }) === 'unsat'; }
    fork(st, c) {
        if (c === 'true') return [{ st, b: true }];
        if (c === 'false') return [{ st, b: false }];
        const nc = not(c);
        if (st.pc.includes(c)) return [{ st, b: true }];
        if (st.pc.includes(nc)) return [{ st, b: false }];
        const t = this.feasible(st, [c]);
        if (!t) return [{ st: st.clone().assume(nc), b: false }];
        const f = this.feasible(st, [nc]);
        if (!f) return [{ st: st.clone().assume(c), b: true }];
        return [{ st: st.clone().assume(c), b: true }, { st: st.clone().assume(nc), b: false }];
    }
    bind(outs, f) {
        const r = [];
        for (const o of outs) {
            if (o.thrown || o.unsup) { r.push(o); continue; }
            this.tick();
            try { for (const x of f(o.st, o.v)) r.push(x); }
            catch (e) { if (e.unsup) r.push({ st: o.st, unsup: e.message }); else throw e; }
        }
        if (r.length > this.maxOuts) throw new Budget('path budget exhausted');
        return r;
    }
    one(st, v) { return [{ st, v }]; }
    throwErr(st, name, msg) { return [{ st, thrown: this.alloc(st, { k: 'err', name, fields: { message: msg || V.str(this.decl('msg', 'String')) } }) }]; }
    // ---------- frames
    pushFrame(st, parent, extra) { const id = this.newId(); st.heap.set(id, { k: 'frame', parent, vars: {}, ...extra }); return id; }
    setVarIn(st, fid, name, v) { const f = st.heap.get(fid); st.heap.set(fid, { ...f, vars: { ...f.vars, [name]: v } }); }
    findVar(st, name) {
        let f = st.frame;
        while (f) { const c = st.heap.get(f); if (Object.prototype.hasOwnProperty.call(c.vars, name)) return f; if (c.mod) return null; f = c.parent; }
        return null;
    }
    modOf(st) { let f = st.frame; while (f) { const c = st.heap.get(f); if (c.mod) return c.mod; f = c.parent; } return null; }
    modFrame(st, mod) { const id = 'mod:' + mod.file; if (!st.heap.has(id)) st.heap.set(id, { k: 'frame', parent: null, vars: {}, mod }); return id; }
    // ---------- value inspection
    // parametric contracts: the code may not inspect element values at all
    opaque() { if (this.opts.opaque && !this.inSpec) throw new Unsupported('inspects an element the contract treats as opaque'); }
    // resolve a choice / refined opaque value; returns outcome list
    deref(st, v) {
        if (v && v.t === 'choice') {
            const key = 'choice:' + v.id;
            if (st.heap.has(key)) return this.deref(st, st.heap.get(key));
            const r = [];
            for (const mk of v.alts) { const s = st.clone(); const x = mk(this, s); s.heap.set(key, x); if (this.feasible(s)) r.push(...this.deref(s, x)); }
            return r;
        }
        if (v && v.t === 'val') { const k = 'val:' + v.e; if (st.heap.has(k)) return this.one(st, st.heap.get(k)); const u = this.unboxSyn(v.e); if (u) return this.one(st, u); }
        return this.one(st, v);
    }
    unboxSyn(e) {
        if (e === 'VUndef') return V.undef;
        if (e === 'VNull') return V.nul;
        let m;
        if ((m = /^\(VInt (\d+|\(- \d+\)|[A-Za-z_][\w!]*)\)$/.exec(e))) return V.int(m[1]);
        if ((m = /^\(VBool (true|false|[A-Za-z_][\w!]*)\)$/.exec(e))) return V.bool(m[1]);
        return null;
    }
    // fork an opaque Val into its kinds
    refine(st, v) {
        return this.bind(this.deref(st, v), (st, v) => {
            if (v.t !== 'val') return this.one(st, v);
            this.opaque();
            const e = v.e, key = 'val:' + e, r = [];
            const alts = [
                [`((_ is VUndef) ${e})`, () => V.undef], [`((_ is VNull) ${e})`, () => V.nul],
                [`((_ is VBool) ${e})`, () => V.bool(`(vb ${e})`)],
                [`((_ is VInt) ${e})`, s => { this.typed(s, `(<= (- ${SAFE}) (vi ${e}) ${SAFE})`); return V.int(`(vi ${e})`); }],
                [`((_ is VFp) ${e})`, s => { this.typed(s, this.nonSafe(`(vf ${e})`)); return V.fp(`(vf ${e})`); }],
                [`((_ is VStr) ${e})`, () => V.str(`(vs ${e})`)],
                [`((_ is VBig) ${e})`, () => V.big(`(vbig ${e})`)], [`((_ is VSym) ${e})`, () => V.sym(`(vsym ${e})`)],
                [`((_ is VFn) ${e})`, () => V.ofn(e)],
                [and([`((_ is VObj) ${e})`, `(oisarr (vo ${e}))`]), s => this.opaqueArr(s, e)],
                [and([`((_ is VObj) ${e})`, `(not (oisarr (vo ${e})))`]), () => V.obj(e)]
            ];
            for (const [c, mk] of alts) {
                if (!this.feasible(st, [c])) continue;
                const s = st.clone().assume(c); const x = mk(s); s.heap.set(key, x); r.push({ st: s, v: x });
            }
            return r;
        });
    }
    typed(st, f) { this.typing.add(f); st.assume(f); }
    opaqueArr(st, e) {
        const o = `(vo ${e})`;
        this.typed(st, `(<= 0 (olen ${o}))`); this.typed(st, `(<= (olen ${o}) 4294967295)`);
        return this.alloc(st, { k: 'arr', el: 'val', arr: `(oarr ${o})`, len: `(olen ${o})`, boxed: e });
    }
    nonSafe(f) { // a double that is not a safe integer (or is -0)
        return `(not (and (not (fp.isNaN ${f})) (not (fp.isInfinite ${f})) (not (and (fp.isZero ${f}) (fp.isNegative ${f}))) (= ${f} (fp.roundToIntegral RTZ ${f})) (fp.leq (fp.abs ${f}) ${fpLit(9007199254740991)})))`;
    }
    box(v, st) {
        switch (v.t) {
            case 'undef': return 'VUndef'; case 'null': return 'VNull';
            case 'bool': return `(VBool ${v.e})`;
            case 'int': { const m = /^\(vi (.*)\)$/.exec(v.e); return m && st && st.pc.includes(`((_ is VInt) ${m[1]})`) ? m[1] : `(VInt ${v.e})`; }
            case 'fp': return `(VFp ${v.e})`; case 'str': return `(VStr ${v.e})`;
            case 'big': return `(VBig ${v.e})`; case 'sym': return `(VSym ${v.e})`;
            case 'val': return v.e; case 'obj': case 'ofn': return v.e;
            case 'real': throw new Unsupported('boxing a real-valued number');
            case 'ref': case 'seq': case 'tup': case 'rec': case 'cbv': {
                if (st && v.t === 'ref') { const c = this.cell(st, v); if (c && c.boxed) return c.boxed; if (c && (c.k === 'clo' || c.k === 'cb' || c.k === 'resolver')) return `(VFn (- ${v.id}))`; }
                if (v.boxed) return v.boxed;
                if (v.fn) return `(VFn (- ${v.id}))`;
                if (v.id === undefined) throw new Unsupported('boxing an anonymous sequence');
                return `(VObj (- ${v.id}))`;
            }
            case 'bi': return `(VFn (- ${this.biId(v.name)}))`;
            case 'prom': if (v.boxed) return v.boxed; throw new Unsupported('boxing a promise');
            default: throw new Unsupported('boxing ' + v.t);
        }
    }
    biId(n) { this._bi = this._bi || new Map(); if (!this._bi.has(n)) this._bi.set(n, this._bi.size + 1); return this._bi.get(n); }
    truthy(st, v) {
        switch (v.t) {
            case 'undef': case 'null': return 'false';
            case 'bool': return v.e;
            case 'int': return isNumLit(v.e) ? String(litVal(v.e) !== 0n) : not(eq(v.e, '0'));
            case 'real': return `(not (= ${v.e} 0.0))`;
            case 'fp': return v.c !== undefined ? String(!!v.c) : `(not (or (fp.isNaN ${v.e}) (fp.isZero ${v.e})))`;
            case 'str': return v.at ? v.at.maybe ? this.inText(v.at) : 'true' : not(eq(v.e, '""'));
            case 'big': return not(eq(v.e, '0'));
            case 'val': this.opaque(); return `(truthy ${v.e})`;
            default: return 'true';
        }
    }
    typeOf(st, v) {
        switch (v.t) {
            case 'undef': return 'undefined'; case 'null': return 'object'; case 'bool': return 'boolean';
            case 'int': case 'fp': case 'real': return 'number'; case 'str': return 'string'; case 'big': return 'bigint';
            case 'sym': return 'symbol'; case 'ofn': case 'bi': case 'bm': case 'bound': return 'function';
            case 'obj': case 'prom': case 'regex': return 'object';
            case 'ref': { const c = this.cell(st, v); return c.k === 'clo' || c.k === 'cb' || c.k === 'resolver' ? 'function' : 'object'; }
            case 'seq': case 'tup': case 'rec': return v.fn ? 'function' : 'object';
            case 'cbv': return 'function';
        }
        throw new Unsupported('typeof ' + v.t);
    }
    // strict equality as a Bool term
    // x % 2^i compared with 0 (or |x % 2| with 1), decided through integrality
    remEq(a, b) {
        if (a.t !== 'fp' || !a.rem || b.t !== 'int' || !(b.e === '0' || (b.e === '1' && a.rem.k === 2n && a.rem.abs))) return null;
        const { x, q } = a.rem, fin = `(not (or (fp.isNaN ${x}) (fp.isInfinite ${x})))`;
        const z = y => `(= ${y} (fp.roundToIntegral RTZ ${y}))`;
        return b.e === '0' ? and([fin, z(q)]) : and([fin, z(x), not(z(q))]);
    }
    strictEq(st, a, b) {
        const num = x => x.t === 'int' || x.t === 'fp' || x.t === 'real';
        if (a.t === 'val' || b.t === 'val') {
            this.opaque();
            const o = a.t === 'val' ? b : a, v = a.t === 'val' ? a : b;
            if (a.t === 'val' && b.t === 'val') return a.e === b.e ? `(not (vnan ${a.e}))` : `(seq3 ${a.e} ${b.e})`;
            if (o.t === 'int') return o.e === '0' ? `(vzero ${v.e})` : isNumLit(o.e) ? eq(v.e, `(VInt ${o.e})`) : `(seq3 ${v.e} (VInt ${o.e}))`;
            if (o.t === 'fp') return `(seq3 ${v.e} ${this.box(o)})`;
            return eq(v.e, this.box(o, st));
        }
        if (num(a) && num(b)) {
            if (a.t === 'int' && b.t === 'int') return eq(a.e, b.e);
            if (a.t === 'fp' || b.t === 'fp') {
                const rm = this.remEq(a, b) || this.remEq(b, a); if (rm) return rm;
                if (a.t === 'int' && !isNumLit(a.e) && b.c === undefined) return this.fpInt('=', b.e, a.e);
                if (b.t === 'int' && !isNumLit(b.e) && a.c === undefined) return this.fpInt('=', a.e, b.e);
                if (a.t === 'int' && !isNumLit(a.e) && b.c !== undefined) return b.c === 0 ? eq(a.e, '0') : Number.isInteger(b.c) && Math.abs(b.c) < 2 ** 60 ? eq(a.e, intLit(b.c)) : 'false';
                if (b.t === 'int' && !isNumLit(b.e) && a.c !== undefined) return this.strictEq(st, b, a);
                const [x, y] = this.toFp2(a, b); if (x === null) return y; return `(fp.eq ${x} ${y})`;
            }
            const [x, y] = [this.toReal(a), this.toReal(b)]; return eq(x, y);
        }
        if (a.t !== b.t) {
            const refl = x => ['ref', 'seq', 'tup', 'rec', 'cbv', 'obj', 'ofn'].includes(x.t);
            if (refl(a) && refl(b)) { try { return eq(this.box(a, st), this.box(b, st)); } catch { return 'false'; } }
            return 'false';
        }
        switch (a.t) {
            case 'undef': case 'null': return 'true';
            case 'bool': return a.e === 'true' ? b.e : b.e === 'true' ? a.e : a.e === 'false' ? not(b.e) : b.e === 'false' ? not(a.e) : eq(a.e, b.e);
            case 'str': {
                // in contracts about code units a character read from a string is compared by its code
                const at = this.opts.units && (a.at || b.at), c = at && litCode((a.at ? b : a).e);
                if (at && c !== null) return c === undefined ? (at.maybe && (a.at ? b : a).e === '""' ? not(this.inText(at)) : 'false') : and([at.maybe ? this.inText(at) : 'true', eq(this.codeAt(at.s, at.i), String(c))]);
                return eq(a.e, b.e);
            }
            case 'big': case 'sym': case 'obj': case 'ofn': return eq(a.e, b.e);
            case 'ref': { if (a.id === b.id) return 'true'; const x = this.cell(st, a), y = this.cell(st, b); if (x && y && (x.boxed || y.boxed)) return eq(this.box(a, st), this.box(b, st)); return 'false'; }
            case 'seq': case 'tup': case 'rec': case 'cbv': return a.boxed && b.boxed ? eq(a.boxed, b.boxed) : String(a.id === b.id);
            case 'bi': return String(a.name === b.name);
            case 'bm': return String(a.name === b.name);
        }
        throw new Unsupported('=== on ' + a.t);
    }
    // both operands as Float64 terms; an Int variable against a non-safe double
    // is decided through its real value
    toFp2(a, b) {
        const f = x => x.t === 'fp' ? x.e : x.t === 'int' && isNumLit(x.e) ? fpLit(Number(litVal(x.e))) : x.t === 'int' ? `((_ to_fp 11 53) RNE (to_real ${x.e}))` : null;
        const x = f(a), y = f(b);
        if (x === null || y === null) throw new Unsupported('mixing floating point with real arithmetic');
        return [x, y];
    }
    // a double against an integer variable (integers are exact, |n| <= 2^53-1)
    fpInt(op, f, n) { // f op n
        const big = fpLit(9007199254740991), sm = fpLit(-9007199254740991), r = `(fp.to_real ${f})`, m = `(to_real ${n})`;
        const gt = op === '>' || op === '>=', lt = op === '<' || op === '<=';
        return `(and (not (fp.isNaN ${f})) (ite (fp.gt ${f} ${big}) ${gt} (ite (fp.lt ${f} ${sm}) ${lt} (${op} ${r} ${m}))))`;
    }
    toReal(v) {
        if (v.t === 'real') return v.e;
        if (v.t === 'int') return isNumLit(v.e) ? (litVal(v.e) < 0n ? `(- ${-litVal(v.e)}.0)` : `${v.e}.0`) : `(to_real ${v.e})`;
        if (v.t === 'fp' && v.c !== undefined && Number.isFinite(v.c)) { // a double is a dyadic rational
            let x = Math.abs(v.c), d = 1n; while (!Number.isInteger(x) && d < (1n << 1100n)) { x *= 2; d *= 2n; }
            const e = d === 1n ? `${BigInt(x)}.0` : `(/ ${BigInt(x)}.0 ${d}.0)`;
            return v.c < 0 ? `(- ${e})` : e;
        }
        throw new Unsupported('to_real ' + v.t);
    }
    // ordering comparison as a Bool term (numbers, strings)
    compare(op, a, b) {
        if (a.t === 'int' && b.t === 'int') return cmp(op, a.e, b.e);
        if (a.t === 'undef' || b.t === 'undef') return 'false';
        if (a.t === 'null') a = V.int('0'); if (b.t === 'null') b = V.int('0');
        if (a.t === 'bool') a = V.int(ite(a.e, '1', '0')); if (b.t === 'bool') b = V.int(ite(b.e, '1', '0'));
        if (a.t === 'big' && (b.t === 'big' || b.t === 'int')) return cmp(op, a.e, b.e);
        if (a.t === 'int' && b.t === 'int') return cmp(op, a.e, b.e);
        if (a.t === 'str' && b.t === 'str') {
            if (op === '<') return `(str.< ${a.e} ${b.e})`; if (op === '<=') return `(str.<= ${a.e} ${b.e})`;
            if (op === '>') return `(str.< ${b.e} ${a.e})`; return `(str.<= ${b.e} ${a.e})`;
        }
        const flip = { '<': '>', '<=': '>=', '>': '<', '>=': '<=' };
        if (a.t === 'int' && !isNumLit(a.e) && b.t === 'fp') { if (b.c !== undefined) { if (Number.isNaN(b.c)) return 'false'; if (Number.isFinite(b.c)) { const v = op === '<' || op === '>=' ? Math.ceil(b.c) : Math.floor(b.c); return cmp(op, a.e, intLit(BigInt(v))); } return String((op[0] === '<') === (b.c > 0)); } return this.fpInt(flip[op], b.e, a.e); }
        if (b.t === 'int' && !isNumLit(b.e) && a.t === 'fp') return a.c !== undefined ? this.compare(flip[op], b, a) : this.fpInt(op, a.e, b.e);
        if (a.t === 'fp' || b.t === 'fp') { const [x, y] = this.toFp2(a, b); return `(fp.${{ '<': 'lt', '<=': 'leq', '>': 'gt', '>=': 'geq' }[op]} ${x} ${y})`; }
        if (a.sq && b.t === 'int') return this.compare(flip[op], b, a);
        if (b.sq && a.t === 'int') return op[0] === '<' ? or([cmp('<', a.e, '0'), cmp(op, mul(a.e, a.e), b.sq)]) : and([cmp('<=', '0', a.e), cmp(op, mul(a.e, a.e), b.sq)]);
        if (a.sq || b.sq) throw new Unsupported('comparison of a square root');
        if ((a.t === 'real' || a.t === 'int') && (b.t === 'real' || b.t === 'int')) { this.assumptions.add('real-arithmetic: quotients and Math.random() products are compared as exact reals'); return `(${op} ${this.toReal(a)} ${this.toReal(b)})`; }
        throw new Unsupported(`comparison ${a.t} ${op} ${b.t}`);
    }
    // ---------- array cells
    elemOf(st, v) {
        switch (v.t) {
            case 'int': return 'int'; case 'str': return 'str'; case 'bool': return 'bool'; case 'fp': return v.c !== undefined && false ? 'fp' : 'fp';
            case 'real': return 'real';
            case 'ref': { const c = this.cell(st, v); if (c.k === 'arr' && !c.boxed) return { seq: c.el }; if (c.k === 'tup') { const e = this.joinItems(st, c.items); return e ? { seq: e } : { seq: 'val', empty: true }; } return 'val'; }
            default: return 'val';
        }
    }
    joinElem(a, b) {
        if (!a) return b; if (!b) return a;
        if (typeof a === 'object' && typeof b === 'object') { if (a.empty) return b; if (b.empty) return a; const j = this.joinElem(a.seq, b.seq); return { seq: j }; }
        return sameElem(a, b) ? a : 'val';
    }
    joinItems(st, items) { let e = null; for (const i of items) e = this.joinElem(e, this.elemOf(st, i)); return e; }
    // SMT term of value v stored with element descriptor el
    toElem(st, v, el) {
        if (typeof el === 'object') {
            if (v.t === 'ref') {
                const c = this.cell(st, v);
                if (c.k === 'arr' || c.k === 'tup') {
                    const a = this.asArr(st, v, el.seq);
                    st.heap.set(v.id, { ...this.cell(st, v), frozen: true });
                    return `(mkseq ${a.arr} ${a.len})`;
                }
            }
            throw new Unsupported('element is not an array');
        }
        if (el === 'val') { return this.box(v, st); }
        if (el === 'fp' && v.t === 'int') return this.toFp2(v, v)[0];
        if (el === 'real') return this.toReal(v);
        const want = { int: 'int', str: 'str', bool: 'bool', fp: 'fp' }[el];
        if (v.t !== want) throw new Unsupported(`element kind ${v.t} in ${el} array`);
        return v.e;
    }
    canElem(st, v, el) { try { const s = st.clone(); this.toElem(s, v, el); return true; } catch (e) { if (e.unsup) return false; throw e; } }
    fromElem(st, e, el, src) {
        if (typeof el === 'object') {
            const len = this.simpSel('slen', e);
            st.assume(`(<= 0 ${len})`);
            return this.alloc(st, { k: 'arr', el: el.seq, arr: this.simpSel('sarr', e), len, frozen: true, view: e });
        }
        switch (el) {
            case 'val': { const u = this.unboxSyn(e); return u || V.val(e); }
            case 'int': return V.int(e); case 'str': return V.str(e); case 'bool': return V.bool(e); case 'fp': return V.fp(e); case 'real': return V.real(e);
        }
    }
    simpSel(f, e) { return `(${f} ${e})`; }
    // view a cell as {arr,len,el}; converts tuples
    asArr(st, ref, el) {
        const c = this.cell(st, ref);
        if (c.k === 'arr') {
            if (!el || sameElem(c.el, el)) return c;
            if (c.len === '0') { const a = this.decl('ea', `(Array Int ${sortOf(el)})`); return { arr: a, len: '0', el }; }
            if (el === 'val' && typeof c.el === 'string') {
                const a = this.decl('cv', '(Array Int Val)');
                const b = { int: 'VInt', str: 'VStr', bool: 'VBool', fp: 'VFp' }[c.el];
                if (!b) throw new Unsupported('array element conversion');
                st.assume(`(forall ((k Int)) (! (= (select ${a} k) (${b} (select ${c.arr} k))) :pattern ((select ${a} k))))`);
                return { ...c, el, arr: a };
            }
            throw new Unsupported('array element conversion');
        }
        if (c.k !== 'tup') throw new Unsupported('not an array: ' + c.k);
        const e = el || this.joinItems(st, c.items) || 'val';
        const base = this.decl('tup', `(Array Int ${sortOf(e)})`);
        let arr = base;
        c.items.forEach((v, i) => { arr = `(store ${arr} ${i} ${this.toElem(st, v, e)})`; });
        return { k: 'arr', el: e, arr, len: String(c.items.length) };
    }
    toArrCell(st, ref, el) { const a = this.asArr(st, ref, el); const c = this.cell(st, ref); const n = { ...c, ...a, k: 'arr', items: undefined }; st.heap.set(ref.id, n); return n; }
    arrLen(st, ref) { const c = this.cell(st, ref); return c.k === 'tup' ? String(c.items.length) : c.len; }
    chkMut(c) { if (c.frozen) throw new Unsupported('mutation of an array that was stored by value'); }
    getIndex(st, ref, i) {
        const c = this.cell(st, ref);
        if (c.k === 'tup') {
            if (isNumLit(i.e)) { const n = Number(litVal(i.e)); return this.bind(this.one(st, n >= 0 && n < c.items.length ? c.items[n] : V.undef), (s, v) => this.deref(s, v)); }
            if (!c.items.length) return this.one(st, V.undef);
            let a; try { a = this.asArr(st, ref); } catch (e) { if (!e.unsup) throw e; return this.bindIndexTup(st, c, i); }
            return this.idx(st, a, i);
        }
        return this.idx(st, c, i);
    }
    bindIndexTup(st, c, i) {
        const r = [];
        c.items.forEach((v, k) => { const f = eq(i.e, String(k)); if (this.feasible(st, [f])) r.push({ st: st.clone().assume(f), v }); });
        const o = or([cmp('<', i.e, '0'), cmp('>=', i.e, String(c.items.length))]);
        if (this.feasible(st, [o])) r.push({ st: st.clone().assume(o), v: V.undef });
        return r;
    }
    idx(st, a, i) {
        const inr = and([cmp('<=', '0', i.e), cmp('<', i.e, a.len)]);
        return this.fork(st, inr).flatMap(({ st, b }) => b ? this.deref(st, this.fromElem(st, `(select ${a.arr} ${i.e})`, a.el)) : this.one(st, V.undef));
    }
    setIndex(st, ref, i, v) {
        let c = this.cell(st, ref); this.chkMut(c);
        if (c.k === 'tup') {
            if (isNumLit(i.e)) { const n = Number(litVal(i.e)); if (n >= 0 && n <= c.items.length) { const it = c.items.slice(); it[n] = v; st.heap.set(ref.id, { ...c, items: it }); return this.one(st, v); } }
            c = this.toArrCell(st, ref, this.joinElem(this.joinItems(st, c.items), this.elemOf(st, v)) || 'val');
        }
        if (!this.canElem(st, v, c.el)) c = this.toArrCell(st, ref, 'val');
        return this.fork(st, and([cmp('<=', '0', i.e), cmp('<=', i.e, c.len)])).flatMap(({ st, b }) => {
            if (!b) {
                if (c.el !== 'val' || !this.valid(st, cmp('<=', '0', i.e))) return [{ st, unsup: 'array write outside 0..length' }];
                const a = this.decl('hole', '(Array Int Val)');
                st.assume(`(forall ((k Int)) (! (= (select ${a} k) (ite (= k ${i.e}) ${this.toElem(st, v, 'val')} (ite (and (<= 0 k) (< k ${c.len})) (select ${c.arr} k) VUndef))) :pattern ((select ${a} k))))`);
                st.heap.set(ref.id, { ...c, arr: a, len: add(i.e, '1') });
                return this.one(st, v);
            }
            const len = ite(cmp('<', i.e, c.len), c.len, add(c.len, '1'));
            const e = this.toElem(st, v, c.el);
            const simp = this.valid(st, cmp('<', i.e, c.len)) ? c.len : len;
            st.heap.set(ref.id, { ...c, arr: `(store ${c.arr} ${i.e} ${e})`, len: simp, cat: undefined });
            return this.one(st, v);
        });
    }
    push(st, ref, v) {
        let c = this.cell(st, ref); this.chkMut(c);
        if (c.k === 'tup') { st.heap.set(ref.id, { ...c, items: [...c.items, v] }); return; }
        if (!this.canElem(st, v, c.el)) c = this.toArrCell(st, ref, 'val');
        const e = this.toElem(st, v, c.el);
        const arr = this.nameTerm(st, `(store ${c.arr} ${c.len} ${e})`, `(Array Int ${sortOf(c.el)})`);
        st.heap.set(ref.id, { ...c, arr, len: add(c.len, '1'), cat: c.cat !== undefined && c.el === 'str' ? `(str.++ ${c.cat} ${e})` : undefined });
    }
    nameTerm(st, e, sort) { return e; }
    // fresh array cell that is a window of another
    sliceArr(st, a, from, len) {
        if (from === '0') { const r = { k: 'arr', el: a.el, arr: a.arr, len, frozen: false }; return r; }
        const n = this.decl('sl', `(Array Int ${sortOf(a.el)})`);
        st.assume(`(forall ((k Int)) (! (= (select ${n} k) (select ${a.arr} (+ k ${from}))) :pattern ((select ${n} k))))`);
        return { k: 'arr', el: a.el, arr: n, len };
    }
    concatArr(st, a, b) {
        const el = this.joinElem(a.el, b.el);
        if (a.len === '0') return { k: 'arr', ...b }; if (b.len === '0') return { k: 'arr', ...a };
        const n = this.decl('cat', `(Array Int ${sortOf(el)})`);
        st.assume(`(forall ((k Int)) (! (= (select ${n} k) (ite (< k ${a.len}) (select ${a.arr} k) (select ${b.arr} (- k ${a.len})))) :pattern ((select ${n} k))))`);
        return { k: 'arr', el, arr: n, len: add(a.len, b.len) };
    }
    // JS relative index clamp (slice/splice)
    relIndex(st, v, len, dflt) {
        if (!v || v.t === 'undef') return dflt;
        if (v.t !== 'int') throw new Unsupported('relative index of kind ' + v.t);
        const e = v.e;
        if (isNumLit(e)) {
            const n = litVal(e);
            if (n === 0n) return '0';
            if (isNumLit(len)) { const l = litVal(len); const r = n < 0n ? (l + n < 0n ? 0n : l + n) : (n > l ? l : n); return String(r); }
            if (n > 0n) return this.valid(st, cmp('<=', e, len)) ? e : `(ite (< ${e} ${len}) ${e} ${len})`;
            const s = sub(len, intLit(-n)); return this.valid(st, cmp('<=', '0', s)) ? s : `(ite (< ${s} 0) 0 ${s})`;
        }
        if (this.valid(st, and([cmp('<=', '0', e), cmp('<=', e, len)]))) return e;
        if (this.valid(st, cmp('<=', '0', e))) return `(ite (< ${e} ${len}) ${e} ${len})`;
        return `(ite (< ${e} 0) (ite (< (+ ${len} ${e}) 0) 0 (+ ${len} ${e})) (ite (< ${e} ${len}) ${e} ${len}))`;
    }
    snap(e) { return e; }
}
module.exports = { Engine, St, Unsupported, Budget, where };
require('./exec')(Engine);
require('./builtins')(Engine);
require('./loops')(Engine);
require('./host')(Engine);
