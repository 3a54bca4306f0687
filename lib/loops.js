'use strict';
// Loops.  A loop is verified by an inductive invariant.  The invariant is
// inferred as the strongest conjunction, per shape ("variant") of the loop
// state, of candidate facts: arithmetic facts generated here plus the loop
// templates of the contract being checked.  Whatever is inferred is checked
// to hold on entry and to be preserved by the real loop body; the code after
// the loop is then executed from an arbitrary state satisfying it.
const { ts } = require('./loader');
const T = require('./values');
const { V, and, or, not, implies, eq, ite, add, sub, cmp, isNumLit, litVal, sortOf, sameElem } = T;
const K = ts.SyntaxKind;

module.exports = function (Engine) {
    const { Unsupported, Budget, where } = require('./engine');
    const P = Engine.prototype;
    const U = (m, n) => { throw new Unsupported(m, n); };
    const N = st => [{ st, c: { type: 'normal' } }];

    // ---------------------------------------------------------------- syntax
    P.execLoop = function (n, st, label) {
        const saved = st.frame;
        const restore = outs => { for (const o of outs) o.st.frame = saved; return outs; };
        if (n.kind === K.WhileStatement) {
            return this.runLoop(st, { node: n, label, cond: s => this.evCond(n.expression, s), body: s => this.exec(n.statement, s), isTrue: n.expression.kind === K.TrueKeyword });
        }
        if (n.kind === K.DoStatement) {
            // body once, then an ordinary while loop
            const first = this.exec(n.statement, st);
            const out = [];
            for (const o of first) {
                if (o.c.type === 'normal' || this.isCont(o.c, label)) out.push(...this.runLoop(o.st, { node: n, label, cond: s => this.evCond(n.expression, s), body: s => this.exec(n.statement, s), isTrue: n.expression.kind === K.TrueKeyword }));
                else if (this.isBrk(o.c, label)) out.push({ st: o.st, c: { type: 'normal' } });
                else out.push(o);
            }
            return out;
        }
        if (n.kind === K.ForStatement) {
            st.frame = this.pushFrame(st, saved);
            let starts;
            if (!n.initializer) starts = N(st);
            else if (ts.isVariableDeclarationList(n.initializer)) starts = this.execDecls(n.initializer, st);
            else starts = this.comp(this.ev(n.initializer, st), N);
            const out = [];
            for (const o of starts) {
                if (o.c.type !== 'normal') { out.push(o); continue; }
                out.push(...this.runLoop(o.st, {
                    node: n, label, isTrue: !n.condition,
                    cond: s => n.condition ? this.evCond(n.condition, s) : this.one(s, true),
                    body: s => this.exec(n.statement, s),
                    update: s => n.incrementor ? this.ev(n.incrementor, s) : this.one(s, null)
                }));
            }
            return restore(out);
        }
        if (n.kind === K.ForOfStatement || n.kind === K.ForInStatement) {
            const decl = ts.isVariableDeclarationList(n.initializer) ? n.initializer.declarations[0].name : null;
            const bindIt = (s, v) => decl ? this.bindPattern(decl, v, s) : this.evRef(n.initializer, s, (s, r) => this.refSet(s, r, v));
            const out = [];
            const src = this.bind(this.ev(n.expression, st), (st, v) => this.bind(this.refine(st, v), (st, v) => n.kind === K.ForInStatement ? this.forInKeys(st, v, n) : this.iterSource(st, v, n)));
            for (const o of src) {
                if (o.unsup) { out.push({ st: o.st, c: { type: 'unsup', msg: o.unsup } }); continue; }
                if (o.thrown) { out.push({ st: o.st, c: { type: 'throw', v: o.thrown } }); continue; }
                const hf = this.pushFrame(o.st, null, { hidden: true });
                this.setVarIn(o.st, hf, '%i', V.int('0'));
                const ix = s => s.heap.get(hf).vars['%i'];
                const arr = o.v;
                const loop = {
                    node: n, label, hf,
                    cond: s => this.fork(s, cmp('<', ix(s).e, this.arrLen(s, arr))).map(({ st, b }) => ({ st, v: b })),
                    body: s => {
                        const fr = s.frame; s.frame = this.pushFrame(s, fr);
                        const outs = this.comp(this.getIndex(s, arr, ix(s)), (s, v) => this.comp(n.awaitModifier ? this.awaitVal(s, v) : this.one(s, v), (s, v) => this.comp(bindIt(s, v), s => this.exec(n.statement, s))));
                        for (const x of outs) x.st.frame = fr;
                        return outs;
                    },
                    update: s => { this.setVarIn(s, hf, '%i', V.int(add(ix(s).e, '1'))); return this.one(s, null); }
                };
                out.push(...this.runLoop(o.st, loop));
            }
            return restore(out);
        }
        U('loop', n);
    };
    P.iterSource = function (st, v, n) {
        if (v.t === 'str') return this.one(st, this.codePoints(st, v));
        if (v.t === 'ref') {
            const c = this.cell(st, v);
            if (c.k === 'arr' || c.k === 'tup') return this.one(st, v);
            if (c.k === 'set') return this.one(st, this.alloc(st, { k: 'arr', el: 'val', arr: c.ord, len: c.size, frozen: true }));
        }
        if (['undef', 'null', 'int', 'fp', 'bool', 'sym', 'big'].includes(v.t)) return this.throwErr(st, 'TypeError');
        U('iteration over ' + v.t, n);
    };
    P.forInKeys = function (st, v, n) {
        if (v.t === 'ref') {
            const c = this.cell(st, v);
            if (c.k === 'rec') return this.one(st, this.alloc(st, { k: 'tup', items: Object.keys(c.fields).map(k => V.lit(k)) }));
            if (c.k === 'tup') return this.one(st, this.alloc(st, { k: 'tup', items: c.items.map((_, i) => V.lit(String(i))) }));
        }
        if (v.t === 'undef' || v.t === 'null') return this.one(st, this.alloc(st, { k: 'tup', items: [] }));
        U('for-in over ' + v.t, n);
    };
    P.isCont = (c, label) => c.type === 'continue' && (!c.label || c.label === label);
    P.isBrk = (c, label) => c.type === 'break' && !c.label;

    // ------------------------------------------------------- one iteration
    P.iterate = function (st, L) {
        const ends = [], exits = [], fr = st.frame, stack = st.stack;
        const put = (o) => {
            o.st.frame = fr; o.st.stack = stack;
            if (o.c.type === 'normal' || this.isCont(o.c, L.label)) {
                let us;
                try { us = L.update ? L.update(o.st) : this.one(o.st, null); } catch (e) { if (!e.unsup) throw e; us = [{ st: o.st, unsup: e.message }]; }
                for (const u of us) {
                    if (u.unsup) exits.push({ st: u.st, c: { type: 'unsup', msg: u.unsup } });
                    else if (u.thrown) exits.push({ st: u.st, c: { type: 'throw', v: u.thrown } });
                    else { u.st.frame = fr; u.st.stack = stack; ends.push(u.st); }
                }
            } else if (this.isBrk(o.c, L.label)) exits.push({ st: o.st, c: { type: 'normal' } });
            else exits.push(o);
        };
        let cs;
        try { cs = L.cond(st); } catch (e) { if (!e.unsup) throw e; cs = [{ st, unsup: e.message }]; }
        for (const o of cs) {
            if (o.unsup) { exits.push({ st: o.st, c: { type: 'unsup', msg: o.unsup } }); continue; }
            if (o.thrown) { exits.push({ st: o.st, c: { type: 'throw', v: o.thrown } }); continue; }
            if (!o.v) { o.st.frame = fr; o.st.stack = stack; exits.push({ st: o.st, c: { type: 'normal' } }); continue; }
            let bs;
            try { bs = L.body(o.st); } catch (e) { if (!e.unsup) throw e; bs = [{ st: o.st, c: { type: 'unsup', msg: e.message } }]; }
            for (const b of bs) put(b);
        }
        return { ends, exits };
    };
    P.runLoop = function (st, L) {
        this.tick();
        if (!L.isTrue && !L.noUnroll) { const r = this.tryUnroll(st, L); if (r) return r; }
        if (this.inferring) return this.fixLoop(st, L);
        return this.fixLoop(st, L);
    };
    P.tryUnroll = function (st0, L) {
        const LIM = this.opts.unroll || 40;
        let live = [st0.clone()]; const exits = [];
        for (let k = 0; k < LIM; k++) {
            const next = [];
            for (const s of live) {
                const probe = s.clone();
                let cs; try { cs = L.cond(probe); } catch (e) { if (!e.unsup) throw e; return null; }
                const bs = new Set(cs.map(o => o.thrown || o.unsup ? 'x' : o.v));
                if (bs.size !== 1 || bs.has('x')) return null;
                if (cs.length > 1 && k > 0) return null;
                // decided only by the path condition: the trip count is symbolic
                const r = this.iterate(s, L);
                exits.push(...r.exits); next.push(...r.ends);
                if (exits.length + next.length > 80) return null;
            }
            live = next;
            if (!live.length) return exits;
        }
        return null;
    };

    // ------------------------------------------------------------ locations
    // keys: f|id|var, c|id, r|id|field, p|id|prop, t|id (ghost/collection cells)
    const PLAIN = { trace: ['n', 'args', 'clk', 'aw', 'callee'], clock: ['e'], await: ['n', 'vals'], now: ['n', 'vals'], rand: ['n', 'vals'], set: ['mem', 'ord', 'size'], map: ['mem', 'size'] };
    P.diffLocs = function (head, end) {
        const out = new Set();
        for (const [id, a] of head.heap) {
            if (typeof id === 'string' && /^(choice|val|g|mod):/.test(id)) continue;
            const b = end.heap.get(id);
            if (a === b) continue;
            if (b === undefined) continue;
            if (a.k === 'timers') { if (a.live.length !== b.live.length || a.live.some((x, i) => x.id !== b.live[i].id)) U('timers kept across iterations'); continue; }
            if (a.k === 'frame') { for (const v of new Set([...Object.keys(a.vars), ...Object.keys(b.vars)])) if (!this.sameV(a.vars[v], b.vars[v])) out.add(`f|${id}|${v}`); continue; }
            if (a.k === 'arr' || a.k === 'tup') {
                if (a.k === b.k && (a.k === 'arr' ? a.arr === b.arr && a.len === b.len && sameElem(a.el, b.el) : a.items.length === b.items.length && a.items.every((x, i) => this.sameV(x, b.items[i])))) continue;
                out.add(`c|${id}`); continue;
            }
            if (a.k === 'rec' || a.k === 'err') { for (const v of new Set([...Object.keys(a.fields), ...Object.keys(b.fields)])) if (!this.sameV(a.fields[v], b.fields[v])) out.add(`r|${id}|${v}`); continue; }
            if (a.k === 'clo') { for (const v of new Set([...Object.keys(a.props), ...Object.keys(b.props)])) if (!this.sameV(a.props[v], b.props[v])) out.add(`p|${id}|${v}`); continue; }
            if (a.k === 'trace' || a.k === 'clock' || a.k === 'await' || a.k === 'now' || a.k === 'rand' || a.k === 'set' || a.k === 'map') { out.add(`t|${id}`); continue; }
            U('loop modifies a ' + a.k + ' cell');
        }
        return out;
    };
    P.sameV = function (a, b) {
        if (a === b) return true; if (!a || !b || a.t !== b.t) return false;
        if (a.t === 'ref') return a.id === b.id;
        if (a.e !== undefined) return a.e === b.e;
        if (a.t === 'undef' || a.t === 'null' || a.t === 'tdz') return true;
        if (a.t === 'prom') return a.ok === b.ok && a.pending === b.pending && this.sameV(a.v, b.v);
        if (a.t === 'bi' || a.t === 'bm') return a.name === b.name && (a.t === 'bi' || this.sameV(a.recv, b.recv));
        if (a.t === 'regex') return a.src === b.src;
        return false;
    };
    const pid = s => (/^\d+$/.test(s) ? Number(s) : s);
    P.getLoc = function (st, key) {
        const [t, id, name] = key.split('|'); const c = st.heap.get(pid(id));
        if (!c) return undefined;
        if (t === 'f') return c.vars[name];
        if (t === 'r') return c.fields[name];
        if (t === 'p') return c.props[name];
        if (t === 'c') return { t: 'ref', id: pid(id) };
        return { t: 'cell', c };
    };
    P.setLoc = function (st, key, v) {
        const [t, id, name] = key.split('|'); const i = pid(id), c = st.heap.get(i);
        if (t === 'f') st.heap.set(i, { ...c, vars: { ...c.vars, [name]: v } });
        else if (t === 'r') st.heap.set(i, { ...c, fields: { ...c.fields, [name]: v } });
        else if (t === 'p') st.heap.set(i, { ...c, props: { ...c.props, [name]: v } });
        else if (t === 'c') st.heap.set(i, v);
        else st.heap.set(i, v);
    };
    // kind of the value at a modified location; `base` is the pre-loop heap
    P.kindAt = function (st, key, base, W, seen) {
        if (key[0] === 'c') {
            const id = pid(key.split('|')[1]);
            return this.cellKind(st, { t: 'ref', id }, base, W, seen, key);
        }
        if (key[0] === 't') { const c = this.getLoc(st, key).c; return c.k === 'map' ? 'map:' + JSON.stringify(c.shape) : c.k; }
        const v = this.getLoc(st, key);
        return this.kindOf(st, v, base, W, seen, key);
    };
    P.kindOf = function (st, v, base, W, seen, key) {
        if (v === undefined) return 'absent';
        switch (v.t) {
            case 'undef': case 'null': case 'int': case 'fp': case 'real': case 'str': case 'big': case 'sym': case 'tdz': return v.t;
            case 'bool': return W.bool.has(key) || (v.e !== 'true' && v.e !== 'false') ? 'bool' : 'bool:' + v.e;
            case 'val': return 'val';
            case 'obj': case 'ofn': return 'val';
            case 'bi': return 'const:bi:' + v.name;
            case 'regex': return 'const:re:' + v.src;
            case 'prom': return v.pending ? U('pending promise kept across iterations') : `prom:${v.ok}:${this.kindOf(st, v.v, base, W, seen, key + '.p')}`;
            case 'ref':
                if (base.has(v.id)) return 'ref:' + v.id;
                return this.cellKind(st, v, base, W, seen, key);
        }
        U('loop-carried value of kind ' + v.t);
    };
    P.cellKind = function (st, v, base, W, seen, key) {
        const c = this.cell(st, v);
        if (seen.has(v.id)) U('aliased loop-carried object'); seen.add(v.id);
        if (W.arr.has(key)) { if (c.k !== 'arr' && c.k !== 'tup') U('loop-carried array becomes ' + c.k); return 'arr'; }
        switch (c.k) {
            case 'arr': return 'arr';
            case 'tup': return `tup[${c.items.map((x, i) => this.kindOf(st, x, base, W, seen, `${key}.${i}`)).join(',')}]`;
            case 'rec': if (c.getters && Object.keys(c.getters).length) break; return `rec{${Object.keys(c.fields).map(f => f + ':' + this.kindOf(st, c.fields[f], base, W, seen, `${key}.${f}`)).join(',')}}`;
            case 'err': return `err:${c.name}{${Object.keys(c.fields).map(f => f + ':' + this.kindOf(st, c.fields[f], base, W, seen, `${key}.${f}`)).join(',')}}`;
            case 'set': return 'set';
        }
        U('loop-carried object of kind ' + c.k);
    };
    P.elAt = function (st, v, prev) {
        const c = this.cell(st, v);
        const el = c.k === 'arr' ? c.el : this.joinItems(st, c.items);
        return c.k === 'tup' && !c.items.length ? prev : this.joinElem(prev, el);
    };
    // fresh value of the same kind as v
    P.havocV = function (st, src, v, base, W, key) {
        if (v === undefined) return undefined;
        const nm = key.split('|').pop();
        switch (v.t) {
            case 'undef': case 'null': case 'bi': case 'regex': case 'tdz': return v;
            case 'int': return V.int(this.decl(nm, 'Int'));
            case 'fp': { const e = this.decl(nm, T.FP); st.assume(this.nonSafe(e)); return V.fp(e); }
            case 'real': return V.real(this.decl(nm, 'Real'));
            case 'str': return V.str(this.decl(nm, 'String'));
            case 'big': return V.big(this.decl(nm, 'Int')); case 'sym': return V.sym(this.decl(nm, 'Int'));
            case 'bool': return W.bool.has(key) || (v.e !== 'true' && v.e !== 'false') ? V.bool(this.decl(nm, 'Bool')) : v;
            case 'val': case 'obj': case 'ofn': return V.val(this.decl(nm, 'Val'));
            case 'prom': return { t: 'prom', ok: v.ok, v: this.havocV(st, src, v.v, base, W, key + '.p') };
            case 'ref': if (base.has(v.id)) return v; { const c = this.havocCell(st, src, src.heap.get(v.id), base, W, key); return this.alloc(st, c); }
        }
        U('havoc ' + v.t);
    };
    P.havocCell = function (st, src, c, base, W, key) {
        if ((c.k === 'arr' || c.k === 'tup') && (W.arr.has(key) || c.k === 'arr')) {
            const el = W.arr.get(key) || c.el || 'val';
            const nm = key.split('|').pop();
            const arr = this.decl('a' + nm, `(Array Int ${sortOf(el)})`), len = this.decl('n' + nm, 'Int');
            st.assume(cmp('<=', '0', len));
            const r = { k: 'arr', el, arr, len };
            if (el === 'str' && W.cat.has(key)) r.cat = this.decl('cat' + nm, 'String');
            return r;
        }
        switch (c.k) {
            case 'tup': return { ...c, items: c.items.map((x, i) => this.havocV(st, src, x, base, W, `${key}.${i}`)) };
            case 'rec': case 'err': return { ...c, fields: Object.fromEntries(Object.entries(c.fields).map(([f, x]) => [f, this.havocV(st, src, x, base, W, `${key}.${f}`)])) };
            case 'trace': {
                const n = this.decl('calls', 'Int'); st.assume(cmp('<=', '0', n));
                const r = { ...c, n, args: this.decl('targs', '(Array Int (JSeq Val))'), clk: this.decl('tclk', '(Array Int Int)'), aw: this.decl('taw', '(Array Int Int)') };
                if (c.callee) r.callee = this.decl('tcallee', '(Array Int Val)');
                return r;
            }
            case 'clock': return { ...c, e: this.decl('clk', 'Int') };
            case 'await': case 'now': case 'rand': { const n = this.decl(c.k, 'Int'); st.assume(cmp('<=', '0', n)); return { ...c, n, vals: c.k !== 'await' ? c.vals : this.decl('awv', '(Array Int Val)') }; }
            case 'set': { const size = this.decl('size', 'Int'); st.assume(cmp('<=', '0', size)); return { ...c, mem: this.decl('mem', '(Array Val Bool)'), ord: this.decl('ord', '(Array Int Val)'), size }; }
            case 'map': { const size = this.decl('size', 'Int'); st.assume(cmp('<=', '0', size)); const r = { ...c, mem: this.decl('mem', '(Array Val Bool)'), size }; if (c.shape) { const so = this.mapSorts(c); r.f = Object.fromEntries(Object.keys(c.f).map(x => [x, this.decl('mv', so[x])])); } return r; }
        }
        U('havoc of ' + c.k);
    };

    // ---------------------------------------------------- fixpoint
    P.fixLoop = function (st0, L) {
        const depth = this.loopDepth = (this.loopDepth || 0) + 1;
        try {
            const W = { arr: new Map(), bool: new Set(), cat: new Set() };
            let locs = new Set();
            for (let attempt = 0; attempt < 14; attempt++) {
                const r = this.fixAttempt(st0, L, locs, W);
                if (r.done) return r.exits;
                locs = r.locs;
            }
            U('loop state did not stabilise', L.node);
        } finally { this.loopDepth = depth - 1; }
    };
    P.normEntry = function (st, locs, W) { // widened arrays get a uniform representation
        for (const key of locs) {
            if (!W.arr.has(key)) continue;
            const v = this.getLoc(st, key); if (!v || v.t !== 'ref') continue;
            const c = this.cell(st, v);
            if (c.k !== 'tup' && c.k !== 'arr') continue;
            const el = W.arr.get(key) || 'val';
            if (c.k === 'tup' || !sameElem(c.el, el)) {
                const cat = c.k === 'tup' && el === 'str' ? this.concatStr(c.items.map(x => x.e)) : c.cat;
                const n = this.toArrCell(st, v, el);
                if (el === 'str') st.heap.set(v.id, { ...n, cat });
            }
            if (el === 'str' && this.cell(st, v).cat !== undefined) W.cat.add(key);
        }
    };
    P.fixAttempt = function (st0, L, locs, W) {
        const base = st0.heap;
        const entry = st0.clone(); this.normEntry(entry, locs, W);
        const variants = new Map(); const work = [];
        const vkeyOf = s => { const seen = new Set(); return [...locs].map(k => this.kindAt(s, k, base, W, seen)).join(';'); };
        const absorb = (s) => { // s flows into the loop head
            const key = vkeyOf(s);
            let v = variants.get(key);
            if (!v) {
                v = { key, sample: s, inv: null };
                if (variants.size > 10) { // widen boolean literals
                    let changed = false; for (const k of locs) if (/^[frp]/.test(k)) { const x = this.getLoc(s, k); if (x && x.t === 'bool' && !W.bool.has(k)) { W.bool.add(k); changed = true; } }
                    if (changed) return 'restart';
                    U('too many loop state shapes', L.node);
                }
                variants.set(key, v);
                this.mkHead(st0, v, locs, W, base, L, entry);
                v.inv = this.filterCands(s, v.cands, v, locs);
                work.push(v);
            } else {
                const before = v.inv.length;
                v.inv = this.filterCands(s, v.inv, v, locs);
                if (v.inv.length !== before && !work.includes(v)) work.push(v);
            }
        };
        if (absorb(entry) === 'restart') return { locs };
        let rounds = 0;
        while (work.length) {
            if (++rounds > 60) U('loop invariant inference did not converge', L.node);
            const v = work.shift();
            const head = v.head.clone(); head.assume(...v.inv.map(c => c.at(head, v)));
            v.headRun = head.clone();
            if (!this.feasible(head)) { v.res = { ends: [], exits: [] }; continue; }
            const res = this.iterate(head, L);
            v.res = res;
            const nl = new Set(locs); let restart = false;
            for (const e of res.ends) for (const k of this.diffLocs(v.head, e)) if (!nl.has(k)) { nl.add(k); restart = true; }
            if (restart) { this.seedWiden(st0, res.ends, nl, W, base); return { locs: nl }; }
            if (this.seedWiden(st0, res.ends, locs, W, base)) return { locs };
            for (const e of res.ends) { this.normEntry(e, locs, W); if (absorb(e) === 'restart') return { locs }; }
        }
        const exits = [];
        for (const v of variants.values()) exits.push(...v.res.exits.filter(x => x.c.type !== 'unsup' || this.feasible(x.st)));
        this.noteLoop(L, variants, st0);
        return { done: true, exits };
    };
    // decide which array locations need the symbolic representation
    P.seedWiden = function (st0, ends, locs, W, base) {
        let ch = false;
        for (const key of locs) {
            if (!/^[cfrp]/.test(key)) continue;
            const vs = [st0, ...ends].map(s => ({ s, v: this.getLoc(s, key) })).filter(x => x.v && x.v.t === 'ref' && x.s.heap.get(x.v.id) && ['arr', 'tup'].includes(x.s.heap.get(x.v.id).k) && (key[0] === 'c' || !base.has(x.v.id) || W.arr.has(key)));
            if (!vs.length) continue;
            const cells = vs.map(x => x.s.heap.get(x.v.id));
            const mixed = cells.some(c => c.k === 'arr') || new Set(cells.map(c => c.items.length)).size > 1;
            if (!mixed && !W.arr.has(key)) continue;
            let el = W.arr.get(key) || null;
            for (const x of vs) el = this.elAt(x.s, x.v, el);
            if (!el) el = 'val';
            if (!W.arr.has(key) || !sameElem(W.arr.get(key), el)) { W.arr.set(key, el); ch = true; }
        }
        return ch;
    };
    P.mkHead = function (st0, v, locs, W, base, L, entry) {
        const h = st0.clone(); this.normEntry(h, locs, W);
        for (const key of locs) {
            if (key[0] === 'c') { const id = pid(key.split('|')[1]); this.setLoc(h, key, this.havocCell(h, v.sample, v.sample.heap.get(id), base, W, key)); }
            else if (key[0] === 't') { const id = pid(key.split('|')[1]); this.setLoc(h, key, this.havocCell(h, v.sample, v.sample.heap.get(id), base, W, key)); }
            else this.setLoc(h, key, this.havocV(h, v.sample, this.getLoc(v.sample, key), base, W, key));
        }
        v.head = h;
        const dead = this.deadNames(L.node);
        v.cands = this.candidates(h, v, locs, entry, L, dead);
    };
    // names that hold nothing at the loop head: every path through condition,
    // body and update writes them before reading, and nothing reads them after
    P.deadNames = function (n) {
        if (this._dead === undefined) this._dead = new Map();
        if (this._dead.has(n)) return this._dead.get(n);
        const dead = new Set(); this._dead.set(n, dead);
        if (!n || !n.kind || ![K.ForStatement, K.WhileStatement].includes(n.kind)) return dead;
        const isId = x => x && x.kind === K.Identifier;
        const names = new Set(); // assigned in the body by plain assignments
        const scan = x => { if (x.kind === K.BinaryExpression && x.operatorToken.kind === K.EqualsToken && isId(x.left)) names.add(x.left.text); ts.forEachChild(x, scan); };
        scan(n.statement);
        let fn = n; while (fn.parent && !ts.isFunctionLike(fn) && fn.kind !== K.SourceFile) fn = fn.parent;
        const refs = (x, nm, acc) => { if (x !== fn && ts.isFunctionLike(x) && x.parameters.some(p => isId(p.name) && p.name.text === nm)) return acc; if (isId(x) && x.text === nm && !(x.parent && ts.isPropertyAccessExpression(x.parent) && x.parent.name === x)) acc.push(x); ts.forEachChild(x, c => { refs(c, nm, acc); }); return acc; };
        const inClosure = x => { for (let y = x; y && y !== fn; y = y.parent) if (ts.isFunctionLike(y)) return true; return false; };
        for (const nm of names) {
            const all = refs(fn, nm, []);
            if (all.some(inClosure)) continue;
            const inBody = x => x.pos >= n.statement.pos && x.end <= n.statement.end;
            const decl = all.filter(x => ts.isVariableDeclaration(x.parent) && x.parent.name === x);
            if (decl.length !== 1 || all.some(x => !inBody(x) && x !== decl[0])) continue;
            // use | def | none | exit (leaves the iteration)
            const seq = fs => { for (const f of fs) { const r = f(); if (r !== 'none') return r; } return 'none'; };
            const go = x => {
                if (!x) return 'none';
                if (isId(x)) return x.text === nm && !(ts.isPropertyAccessExpression(x.parent) && x.parent.name === x) ? 'use' : 'none';
                switch (x.kind) {
                    case K.BinaryExpression: {
                        const op = x.operatorToken.kind;
                        if (op === K.EqualsToken && isId(x.left) && x.left.text === nm) { const r = go(x.right); return r === 'none' ? 'def' : r; }
                        if ([K.AmpersandAmpersandToken, K.BarBarToken, K.QuestionQuestionToken].includes(op)) { const a = go(x.left); if (a !== 'none') return a; return go(x.right) === 'use' ? 'use' : 'none'; }
                        return seq([() => go(x.left), () => go(x.right)]);
                    }
                    case K.ConditionalExpression: return seq([() => go(x.condition), () => join(go(x.whenTrue), go(x.whenFalse))]);
                    case K.IfStatement: return seq([() => go(x.expression), () => join(go(x.thenStatement), go(x.elseStatement))]);
                    case K.ContinueStatement: case K.BreakStatement: case K.ReturnStatement: case K.ThrowStatement: { const r = x.expression ? go(x.expression) : 'none'; return r === 'use' ? 'use' : 'exit'; }
                    case K.Block: return seq(x.statements.map(y => () => go(y)));
                    case K.ExpressionStatement: case K.ParenthesizedExpression: return go(x.expression);
                    case K.VariableStatement: return seq(x.declarationList.declarations.map(d => () => go(d.initializer)));
                    case K.ForStatement: case K.WhileStatement: case K.DoStatement: case K.ForOfStatement: case K.ForInStatement: case K.SwitchStatement: case K.TryStatement: case K.LabeledStatement: return refs(x, nm, []).length ? 'use' : 'none';
                }
                let r = 'none'; ts.forEachChild(x, c => { if (r === 'none') r = go(c); }); return r;
            };
            const join = (a, b) => (a === 'use' || b === 'use' ? 'use' : a === 'none' || b === 'none' ? 'none' : a === 'exit' ? b : b === 'exit' ? a : a);
            if (go(n.statement) !== 'use') dead.add(nm);
        }
        return dead;
    };
    // ---------------------------------------------------- candidates
    // an atom reads an integer term out of a state
    P.atomsOf = function (h, locs, dead) {
        const mod = [], fix = [];
        const seenT = new Set();
        const addFix = (nm, e) => { if (!isNumLit(e) && !seenT.has(e)) { seenT.add(e); fix.push({ nm, at: () => e }); } };
        for (const key of locs) {
            if (dead && key[0] === 'f' && dead.has(key.split('|')[2])) continue;
            const v = this.getLoc(h, key); if (!v) continue;
            const visit = (nm, get, v, depth) => {
                if (!v) return;
                const of = (s, t) => { const x = get(s); if (!x || x.t !== t) throw Object.assign(new Error('other kind'), { spec: true }); return x.e; };
                if (v.t === 'int') mod.push({ nm, at: s => of(s, 'int'), hidden: /%/.test(nm) });
                else if (v.t === 'str') mod.push({ nm: nm + '.length', len: true, at: s => this.strLen(of(s, 'str')) });
                else if (v.t === 'ref' && depth < 2) {
                    const c = this.cell(h, v);
                    if (c.k === 'arr' || (c.k === 'tup' && key[0] === 'c')) mod.push({ nm: nm + '.length', len: true, at: s => this.arrLen(s, get(s)) });
                    if (c.k === 'rec') for (const f of Object.keys(c.fields)) visit(nm + '.' + f, s => this.cell(s, get(s)).fields[f], c.fields[f], depth + 1);
                    if (c.k === 'tup') c.items.forEach((x, i) => visit(`${nm}[${i}]`, s => { const cc = this.cell(s, get(s)); return cc.items[i]; }, x, depth + 1));
                    if (c.k === 'set') mod.push({ nm: nm + '.size', at: s => this.cell(s, get(s)).size });
                }
            };
            if (key[0] === 't') {
                const c = v.c;
                if (c.k === 'clock') { mod.push({ nm: key, clock: true, at: s => this.getLoc(s, key).c.e }); continue; }
                if (c.n !== undefined) mod.push({ nm: key + '.n', calls: true, at: s => this.getLoc(s, key).c.n });
                if (c.size !== undefined) mod.push({ nm: key + '.size', at: s => this.getLoc(s, key).c.size });
            } else visit(key, s => this.getLoc(s, key), v, 0);
        }
        // unmodified integers in scope
        const seenId = new Set();
        const fixV = (nm, v, d) => {
            if (!v) return;
            if (v.t === 'int') addFix(nm, v.e);
            else if (v.t === 'str') addFix(nm + '.length', this.strLen(v.e));
            else if (v.t === 'ref' && d < 2 && !seenId.has(v.id)) { seenId.add(v.id); if (locs.has('c|' + v.id)) return; const c = this.cell(h, v); if (!c) return; if (c.k === 'arr') addFix(nm + '.length', c.len); if (c.k === 'tup') c.items.forEach((x, i) => fixV(nm + i, x, d + 1)); if (c.k === 'rec') for (const f of Object.keys(c.fields)) if (!locs.has(`r|${v.id}|${f}`)) fixV(nm + '.' + f, c.fields[f], d + 1); }
        };
        const frames = new Set(); let f = h.frame; while (f) { frames.add(f); f = h.heap.get(f).parent; }
        for (const s of h.stack.slice(-2)) { let g = s.caller; while (g && h.heap.get(g)) { frames.add(g); g = h.heap.get(g).parent; } }
        for (const key of locs) if (key[0] === 'f') frames.add(pid(key.split('|')[1]));
        for (const fid of frames) { const c = h.heap.get(fid); if (!c || c.k !== 'frame' || c.mod) continue; for (const nm of Object.keys(c.vars)) if (!locs.has(`f|${fid}|${nm}`)) fixV(nm, c.vars[nm], 0); }
        for (const [id, c] of h.heap) if (c && c.k === 'trace' && !locs.has('t|' + id)) addFix(id, c.n);
        return { mod, fix: fix.slice(0, 24) };
    };
    P.candidates = function (h, v, locs, e0, L, dead) {
        const out = []; const seen = new Set();
        const put = (at, nm) => { const t = at(h, v); if (t === 'true' || seen.has(t)) return; seen.add(t); out.push({ at, nm, q: /\((forall|exists) /.test(t) }); };
        const { mod, fix } = this.atomsOf(h, locs, dead);
        const entryTerm = a => { try { const t = a.at(e0); return t === undefined ? null : t; } catch { return null; } };
        const ents = mod.map(entryTerm);
        const realMod = mod.filter(a => !a.clock);
        for (const a of mod) {
            const i = mod.indexOf(a), x0 = ents[i];
            if (a.clock) { if (x0 !== null) put(s => cmp('<=', x0, a.at(s)), 'clock'); continue; }
            put(s => cmp('<=', '0', a.at(s)));
            put(s => cmp('<=', '(- 1)', a.at(s)));
            put(s => cmp('<=', '1', a.at(s)));
            put(s => eq(a.at(s), '0'));
            if (x0 !== null) {
                put(s => cmp('<=', x0, a.at(s))); put(s => cmp('<=', a.at(s), x0)); put(s => eq(a.at(s), x0)); put(s => eq(a.at(s), add(x0, '1')));
                put(s => cmp('<=', '0', `(- ${a.at(s)} ${x0})`));
            }
            for (const b of fix) {
                const t = b.at();
                put(s => cmp('<=', a.at(s), t)); put(s => cmp('<', a.at(s), t)); put(s => cmp('<=', t, a.at(s))); put(s => eq(a.at(s), t)); put(s => cmp('<=', a.at(s), add(t, '1')));
                put(s => eq(a.at(s), add(t, '1')));
            }
            for (const b of realMod) {
                if (a === b) continue;
                const j = mod.indexOf(b), y0 = ents[j];
                put(s => cmp('<=', a.at(s), b.at(s))); put(s => cmp('<', a.at(s), b.at(s)));
                put(s => cmp('<=', a.at(s), add(b.at(s), '1')));
                if (i < j) {
                    put(s => eq(a.at(s), b.at(s)));
                    put(s => eq(a.at(s), add(b.at(s), '1'))); put(s => eq(b.at(s), add(a.at(s), '1')));
                    if (x0 !== null && y0 !== null && !(x0 === y0)) { put(s => eq(`(- ${a.at(s)} ${x0})`, `(- ${b.at(s)} ${y0})`)); }
                    if (x0 !== null && y0 !== null) put(s => eq(`(+ ${a.at(s)} ${b.at(s)})`, `(+ ${x0} ${y0})`));
                    for (const f of fix.slice(0, 10)) put(s => eq(`(+ ${a.at(s)} ${b.at(s)})`, f.at()));
                }
            }
        }
        // scalars equal to their entry value; array prefixes kept
        for (const key of locs) {
            const x = this.getLoc(h, key), y = this.getLoc(e0, key);
            if (!x || !y) continue;
            if (['str', 'val', 'bool', 'fp'].includes(x.t) && x.t === y.t) put(s => eq(this.getLoc(s, key).e, y.e), 'unchanged');
            if (x.t === 'val' && ['undef', 'null', 'obj', 'ofn', 'str', 'int', 'bool'].includes(y.t)) { try { const b = this.box(y, e0); put(s => eq(this.getLoc(s, key).e, b), 'unchanged'); } catch (e) { if (!e.unsup) throw e; } }
            if (x.t === 'ref' && y.t === 'ref') {
                const cx = this.cell(h, x), cy = this.cell(e0, y);
                if (cx.k === 'arr' && cy.k === 'arr' && sameElem(cx.el, cy.el) && cy.len !== '0') {
                    const g = s => this.cell(s, this.getLoc(s, key));
                    put(s => `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${cy.len})) (= (select ${g(s).arr} k) (select ${cy.arr} k))) :pattern ((select ${g(s).arr} k))))`, 'prefix');
                }
            }
            if (x.t === 'cell' && x.c.k === 'trace' && y.c.n !== '0') { // calls made before the loop stay recorded
                for (const f of ['args', 'clk', 'aw']) put(s => `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${y.c.n})) (= (select ${this.getLoc(s, key).c[f]} k) (select ${y.c[f]} k))) :pattern ((select ${this.getLoc(s, key).c[f]} k))))`, 'trace-prefix');
            }
            if (x.t === 'cell' && x.c.k === 'trace') { // calls carry increasing time stamps below the clock
                put(s => `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${this.getLoc(s, key).c.n})) (< (select ${this.getLoc(s, key).c.clk} k) ${s.heap.get('clock').e})) :pattern ((select ${this.getLoc(s, key).c.clk} k))))`, 'stamps');
            }
        }
        // several maps: same keys, same values
        const maps = [...locs].filter(k => k[0] === 't' && this.getLoc(h, k).c.k === 'map');
        for (const key of maps) { const g = s => this.getLoc(s, key).c; put(s => eq(g(s).mem, '((as const (Array Val Bool)) false)'), 'empty-map'); }
        maps.forEach((ka, i) => maps.slice(i + 1).forEach(kb => {
            const ga = s => this.getLoc(s, ka).c, gb = s => this.getLoc(s, kb).c;
            put(s => eq(ga(s).mem, gb(s).mem), 'same-keys');
            for (const x of Object.keys(ga(h).f || {})) for (const y of Object.keys(gb(h).f || {})) if (this.mapSorts(ga(h))[x] === this.mapSorts(gb(h))[y]) put(s => eq(ga(s).f[x], gb(s).f[y]), 'same-values');
        }));
        if (this.specTemplates) for (const t of this.specTemplates(h, v, locs, e0, mod, fix)) { try { put(t.at, t.nm); } catch (e) { if (!e.unsup && !e.spec) throw e; } }
        return out;
    };
    // a candidate from the contract: the incremental solver first, then a fresh race of solvers
    P.candHolds = function (hyps, t, timeout, rlimit) {
        if (this.solver.cvcFirst && this.solver.quick([...hyps, not(t)])) return true;
        const skip = (this._incLost || 0) >= 4 && (this._incLost++ % 12) !== 0; // the incremental solver keeps failing where a fresh one succeeds
        const r = skip ? 'unknown' : this.solver.check([...hyps, not(t)], { timeout, rlimit });
        if (r !== 'unknown') { this._incLost = 0; return r === 'unsat'; }
        const lost = this._lost || 0;
        if (lost > 24) return false;
        const o = this.solver.oneshot([...hyps, not(t)], { timeout: lost > 8 ? 3000 : 8000 });
        if (process.env.VERIF_CAND) console.error('oneshot', o.res, o.by, o.ms);
        if (o.res === 'unsat') { if (!skip) this._incLost = (this._incLost || 0) + 1; this.solver.by[o.by + '-oneshot'] = (this.solver.by[o.by + '-oneshot'] || 0) + 1; return true; }
        if (o.res === 'unknown') this._lost = lost + 1;
        return false;
    };
    P.filterCands = function (s, cands, v) {
        // evaluate on s; drop what cannot be proved there
        let live = [];
        for (const c of cands) { let t; try { t = c.at(s, v); } catch (e) { if (!e.unsup && !e.spec) throw e; continue; } if (t === 'false') continue; live.push({ c, t }); }
        const keep = live.filter(x => x.t === 'true');
        live = live.filter(x => x.t !== 'true');
        const q = live.filter(x => x.c.q); let qf = live.filter(x => !x.c.q);
        // quantifier-free candidates: models of the quantifier-free hypotheses refute most of the false ones
        const pq = s.pc.filter(f => !/\((forall|exists) /.test(f)), suspects = [];
        const RQ = { timeout: 4000, rlimit: 3000000 };
        for (let i = 0; i < 40 && qf.length; i++) {
            this.tick();
            const r = this.solver.check([...pq, not(and(qf.map(x => x.t)))], { ...RQ, getValues: qf.map(x => x.t) });
            if (r.res === 'unsat') { keep.push(...qf); qf = []; break; }
            const vals = r.values ? parseBools(r.values, qf.length) : null;
            const n = qf.length;
            if (vals) { suspects.push(...qf.filter((x, i) => vals[i] === false)); qf = qf.filter((x, i) => vals[i] !== false); }
            if (!vals || qf.length === n) break;
        }
        for (const x of qf) (this.solver.check([...pq, not(x.t)], { timeout: 2000, rlimit: 600000 }) === 'unsat' ? keep : suspects).push(x);
        if (pq.length < s.pc.length) for (const x of suspects) { // refuted without the quantified hypotheses: decided with them
            this.tick(); const tpl = x.c.nm && x.c.nm.startsWith('template');
            if (!tpl && !this.opts.suspects) continue;
            if (tpl ? this.candHolds(s.pc, x.t, 2000, 800000) : this.solver.check([...s.pc, not(x.t)], { timeout: 2000, rlimit: 150000 }) === 'unsat') keep.push(x);
        }
        const known = keep.map(x => x.t);
        for (const x of q) {
            this.tick();
            const hy = [...s.pc, ...known];
            if (x.c.nm && x.c.nm.startsWith('template') ? this.candHolds(hy, x.t, 4000, 3000000) : this.solver.check([...hy, not(x.t)], { timeout: 8000, rlimit: this.opts.qRl || 6000000 }) === 'unsat') { keep.push(x); known.push(x.t); }
        }
        const set = new Set(keep.map(x => x.c));
        if (process.env.VERIF_CAND) { const t = cands.filter(c => c.nm && c.nm.startsWith('template')); console.error(`templates ${t.filter(c => set.has(c)).length}/${t.length}, lost:`, t.filter(c => !set.has(c)).map(c => c.nm).join(' ')); }
        return cands.filter(c => set.has(c));
    };
    function parseBools(txt, n) {
        // ((term val) (term val) ...): values appear as the last token of each pair at depth 1
        const out = []; let d = 0, i = 0, start = -1;
        while (i < txt.length) {
            const ch = txt[i];
            if (ch === '"') { i++; while (i < txt.length) { if (txt[i] === '"') { if (txt[i + 1] === '"') { i += 2; continue; } break; } i++; } i++; continue; }
            if (ch === '(') { d++; if (d === 2) start = i; }
            if (ch === ')') { if (d === 2) { const m = /(true|false)\s*$/.exec(txt.slice(Math.max(start, i - 12), i)); out.push(m ? m[1] === 'true' : undefined); } d--; }
            i++;
        }
        return out.length === n ? out : null;
    }
    // ---------------------------------------------------- termination
    P.noteLoop = function (L, variants, st0) {
        const rep = { at: L.node ? where(L.node) : '?', variants: variants.size, invs: [...variants.values()].reduce((a, v) => a + v.inv.length, 0) };
        this.loopReport = this.loopReport || [];
        let pairs = [];
        for (const v of variants.values()) for (const e of (v.res.ends || [])) pairs.push({ v, e });
        rep.steps = pairs.length;
        if (pairs.length && !this.opts.noTerm) {
            const v0 = variants.values().next().value;
            const { mod, fix } = this.atomsOf(v0.head, new Set(this.locsOf(variants)));
            const meas = [];
            for (const a of mod) { if (a.clock) continue; for (const b of [...fix, ...mod]) if (a !== b && !b.clock) meas.push(s => `(- ${b.at(s)} ${a.at(s)})`); meas.push(s => a.at(s)); if (a.hidden) break; }
            rep.term = false;
            const t0 = Date.now();
            const qf = new Map(pairs.map(({ e }) => [e, e.pc.filter(f => !/\((forall|exists) /.test(f))]));
            // measures are tried on the quantifier-free hypotheses first: cheap, and enough for counters
            for (const [m, full] of [...meas.map(m => [m, false]), ...meas.map(m => [m, true])]) {
                if (rep.term || Date.now() - t0 > (full ? 24000 : 16000) * Number(process.env.VERIF_SLOWX || 1)) break;
                let ok = true;
                for (const { v, e } of pairs) {
                    let f; try { const x = m(v.head), y = m(e); f = and([cmp('<=', '0', x), cmp('<', y, x)]); } catch { ok = false; break; }
                    if (this.solver.check([...(full ? e.pc : qf.get(e)), not(f)], { timeout: 2000, rlimit: full ? 1500000 : 600000 }) !== 'unsat') { ok = false; break; }
                }
                if (ok) { rep.term = true; break; }
            }
            rep.bounded = rep.term;
        } else rep.term = true;
        const old = this.loopReport.find(r => r.at === rep.at);
        if (!old) this.loopReport.push(rep); else { old.term = old.term && rep.term; old.variants = Math.max(old.variants, rep.variants); old.invs = Math.max(old.invs, rep.invs); }
    };
    P.locsOf = function (variants) {
        const s = new Set();
        for (const v of variants.values()) for (const e of v.res.ends) for (const k of this.diffLocs(v.head, e)) s.add(k);
        return s;
    };

    // ------------------------------------------- array callbacks
    // summarise a callback that is a pure function of element and index
    P.pureLambda = function (st, fv, mkArgs, len) {
        const k = this.decl('kk', 'Int');
        const s = st.clone().assume(cmp('<=', '0', k), cmp('<', k, len));
        const nd = this.solver.decls.length, pcn = s.pc.length;
        const heap0 = new Map(s.heap);
        let outs;
        try { outs = this.bind(mkArgs(s, k), (s, args) => this.call(s, fv, V.undef, args)); } catch (e) { if (e.unsup) return null; throw e; }
        const fresh = this.solver.decls.slice(nd).some(d => /^\(declare-(const|fun) [^ ]+!\d+/.test(d) );
        if (fresh) return null;
        const cases = [];
        for (const o of outs) {
            if (o.unsup || o.thrown) return null;
            if (this.diffLocs({ heap: heap0 }, o.st).size) return null;
            const cond = and(o.st.pc.slice(pcn).filter(f => !this.typing.has(f)));
            if (/\((forall|exists) /.test(cond)) return null;
            cases.push({ cond, v: o.v, st: o.st });
        }
        if (!cases.length) return null;
        return { k, cases };
    };
    P.hof = function (st, name, ref, args, n, fromFlag) {
        const fv0 = args[0] ? args[0].v : V.undef;
        return this.bind(this.deref(st, fv0), (st, fv) => {
            const isFn = ['bi', 'bm', 'ofn', 'bound'].includes(fv.t) || (fv.t === 'ref' && ['clo', 'cb', 'resolver'].includes(this.cell(st, fv).k));
            if (!isFn && fv.t !== 'val') return this.throwErr(st, 'TypeError');
            const c0 = this.cell(st, ref);
            const len = this.arrLen(st, ref);
            const reduce = name === 'reduce' || name === 'reduceRight';
            const thisArg = !reduce && args[1] ? args[1].v : V.undef;
            if (!isNumLit(len) && !reduce && ['map', 'some', 'every', 'find', 'findIndex', 'filter'].includes(name)) {
                const r = this.pureHof(st, name, ref, fv, thisArg, len, fromFlag);
                if (r) return r;
            }
            return this.hofLoop(st, name, ref, fv, thisArg, args, n, len, fromFlag);
        });
    };
    P.pureHof = function (st, name, ref, fv, thisArg, len, fromFlag) {
        if (fv.t === 'ref' && this.cell(st, fv).k === 'cb') return null;
        const c = this.cell(st, ref); if (c.k !== 'arr') return null;
        if (name === 'filter') return null;
        const pl = this.pureLambda(st, fv, (s, k) => this.bind(this.one(s, this.fromElem(s, `(select ${c.arr} ${k})`, c.el)), (s, v) => this.one(s, fromFlag ? [{ v }, { v: V.int(k) }] : [{ v }, { v: V.int(k) }, { v: ref }])), len);
        if (!pl) return null;
        const sub1 = (t, x) => t.replace(new RegExp(pl.k.replace(/[!]/g, '\\!') + '(?![\\w!])', 'g'), x);
        if (name === 'map') {
            let el; for (const x of pl.cases) { const e = this.elemOf(x.st, x.v); if (typeof e === 'object') return null; el = this.joinElem(el, e); }
            let terms; try { terms = pl.cases.map(x => ({ c: x.cond, t: this.toElem(x.st, x.v, el) })); } catch (e) { if (e.unsup) return null; throw e; }
            let body = terms[terms.length - 1].t;
            for (let i = terms.length - 2; i >= 0; i--) body = ite(terms[i].c, terms[i].t, body);
            const a = this.decl('mapd', `(Array Int ${sortOf(el)})`);
            st.assume(`(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${len})) (= (select ${a} k) ${sub1(body, 'k')})) :pattern ((select ${a} k))))`);
            return this.one(st, this.alloc(st, { k: 'arr', el, arr: a, len }));
        }
        const P1 = or(pl.cases.map(x => and([x.cond, this.truthy(x.st, x.v)])));
        if (/^\((forall|exists)/.test(P1)) return null;
        const pred = i => sub1(P1, i);
        const pat = `:pattern ((select ${c.arr} k))`;
        const want = name === 'every' ? not(pred('k')) : pred('k');
        const none = `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${len})) ${not(want)}) ${pat}))`;
        const out = [];
        const s1 = st.clone().assume(none);
        if (this.feasible(s1)) out.push({ st: s1, v: name === 'every' ? V.bool('true') : name === 'some' ? V.bool('false') : name === 'find' ? V.undef : V.int('(- 1)') });
        const w = this.decl('wit', 'Int'), s2 = st.clone();
        s2.assume(cmp('<=', '0', w), cmp('<', w, len), name === 'every' ? not(pred(w)) : pred(w), `(forall ((k Int)) (! (=> (and (<= 0 k) (< k ${w})) ${not(want)}) ${pat}))`);
        if (this.feasible(s2)) out.push({ st: s2, v: name === 'every' ? V.bool('false') : name === 'some' ? V.bool('true') : name === 'find' ? this.fromElem(s2, `(select ${c.arr} ${w})`, c.el) : V.int(w) });
        return out.flatMap(o => this.deref(o.st, o.v));
    };
    P.hofLoop = function (st, name, ref, fv, thisArg, args, n, len, fromFlag) {
        const hf = this.pushFrame(st, null, { hidden: true });
        const right = name === 'reduceRight', reduce = right || name === 'reduce';
        const get = (s, v) => s.heap.get(hf).vars[v];
        const set = (s, v, x) => this.setVarIn(s, hf, v, x);
        set(st, '%i', right ? V.int(sub(len, '1')) : V.int('0'));
        if (!isNumLit(len)) set(st, '%n', V.int(len)); // the length the iteration was started with
        const starts = [];
        if (name === 'map' || name === 'filter' || name === 'flatMap') set(st, '%out', this.alloc(st, { k: 'tup', items: [] }));
        if (reduce) {
            if (args.length > 1) { if (!args[1].v) U('reduce spread', n); set(st, '%acc', args[1].v); starts.push(st); }
            else for (const { st: s, b } of this.fork(st, eq(len, '0'))) {
                if (b) { starts.push({ thrown: s }); continue; }
                for (const o of this.getIndex(s, ref, get(s, '%i'))) { set(o.st, '%acc', o.v); set(o.st, '%i', V.int(right ? sub(len, '2') : '1')); starts.push(o.st); }
            }
        } else starts.push(st);
        const out = [];
        for (const s0 of starts) {
            if (s0.thrown) { out.push(...this.throwErr(s0.thrown, 'TypeError')); continue; }
            const L = {
                node: n, hf,
                cond: s => this.fork(s, right ? cmp('<=', '0', get(s, '%i').e) : cmp('<', get(s, '%i').e, len)).map(({ st, b }) => ({ st, v: b })),
                body: s => this.comp(this.getIndex(s, ref, get(s, '%i')), (s, v) => {
                    const i = get(s, '%i');
                    const as = reduce ? [{ v: get(s, '%acc') }, { v }, { v: i }, { v: ref }] : fromFlag ? [{ v }, { v: i }] : [{ v }, { v: i }, { v: ref }];
                    return this.comp(this.call(s, fv, thisArg, as, n), (s, r) => {
                        switch (name) {
                            case 'forEach': return N(s);
                            case 'map': this.push(s, get(s, '%out'), r); return N(s);
                            case 'flatMap': { if (r.t !== 'ref' || !['arr', 'tup'].includes(this.cell(s, r).k)) { this.push(s, get(s, '%out'), r); return N(s); } return this.comp(this.bind(this.toSpread(s, r), (s, items) => this.arrMethod(get(s, '%out'), 'push', items, s, n)), N); }
                            case 'reduce': case 'reduceRight': set(s, '%acc', r); return N(s);
                        }
                        return this.fork(s, this.truthy(s, r)).flatMap(({ st: s, b }) => {
                            if (name === 'filter') { if (b) this.push(s, get(s, '%out'), v); return N(s); }
                            if (name === 'some' ? b : name === 'every' ? !b : b) { set(s, '%hit', name === 'find' ? v : V.int(i.e)); return [{ st: s, c: { type: 'break' } }]; }
                            return N(s);
                        });
                    });
                }),
                update: s => { set(s, '%i', V.int(add(get(s, '%i').e, right ? '(- 1)' : '1'))); return this.one(s, null); }
            };
            for (const o of this.runLoop(s0, L)) {
                if (o.c.type === 'unsup') { out.push({ st: o.st, unsup: o.c.msg }); continue; }
                if (o.c.type === 'throw') { out.push({ st: o.st, thrown: o.c.v }); continue; }
                const s = o.st, hit = get(s, '%hit');
                let r = V.undef;
                switch (name) {
                    case 'map': case 'filter': case 'flatMap': r = get(s, '%out'); break;
                    case 'reduce': case 'reduceRight': r = get(s, '%acc'); break;
                    case 'some': r = V.bool(String(!!hit)); break;
                    case 'every': r = V.bool(String(!hit)); break;
                    case 'find': r = hit || V.undef; break;
                    case 'findIndex': r = hit || V.int('(- 1)'); break;
                }
                out.push({ st: s, v: r });
            }
        }
        return out;
    };
};
