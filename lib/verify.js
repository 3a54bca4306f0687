'use strict';
// Function-level verification: contract -> obligations -> solver.
const path = require('path');
const { Loader, ts, REPO } = require('./loader');
const { Solver } = require('./smt');
const { Engine, St, Budget, where } = require('./engine');
const { Spec } = require('./spec');
const TT = require('./values');
const { V, and, not, eq, cmp, isNumLit } = TT;
const trusted = require('./trusted');

function findFn(loader, c) {
    const file = path.join(REPO, c.file);
    const r = loader.findExport(file, c.export || 'default');
    return r && r.mod ? r : null;
}
// a synthetic module holding the contract's client program
function driveModule(loader, c) {
    const src = '(' + c.drive.toString() + ')';
    const file = '/drive/' + c.id + '.js';
    const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    const m = { file, sf, text: src, imports: new Map(), exports: new Map(), stars: [], decls: new Map() };
    for (const [name, u] of Object.entries(c.uses || {})) m.imports.set(name, typeof u === 'string' ? { spec: path.join(REPO, u), name: 'default' } : { spec: path.join(REPO, u.file), name: u.export });
    loader.files.set(file, m);
    let e = sf.statements[0].expression; while (ts.isParenthesizedExpression(e)) e = e.expression;
    return { m, node: e };
}
// callee contracts a function is verified against
function sumsOf(loader, c, lib) {
    const m = new Map();
    for (const id of c.calls || []) {
        const k = (lib || {})[id]; if (!k) throw new Error('no contract ' + id);
        const r = findFn(loader, k); if (!r) continue;
        m.set(r.mod.file.slice(REPO.length + 1) + '#' + r.name, k);
    }
    return m;
}
function snapshotEnv(eng, st, names, vals) {
    const env = {};
    names.forEach((n, i) => {
        const v = vals[i]; env[n] = v;
        env['old_' + n] = snap(eng, st, v);
    });
    return env;
}
function snap(eng, st, v) {
    if (v.t === 'ref') {
        const c = st.heap.get(v.id);
        if (c.k === 'arr') return { t: 'seq', el: c.el, arr: c.arr, len: c.len };
        if (c.k === 'tup') return { t: 'stup', items: c.items.map(x => snap(eng, st, x)) };
        if (c.k === 'rec') return { t: 'env', env: Object.fromEntries(Object.entries(c.fields).map(([k, x]) => [k, snap(eng, st, x)])) };
    }
    return v;
}
function templates(eng, spec, c) {
    const inv = c.inv || [];
    return (h, v, locs, e0, mod, fix) => {
        const env0 = eng.specEnv; if (!env0) return [];
        const holes = { $i: [], $m: [], $a: [], $s: [], $b: [], $v: [], $e: [] };
        for (const a of mod) if (!a.clock) { if (!a.len && !a.calls) holes.$i.push(s => V.int(a.at(s))); holes.$m.push(s => V.int(a.at(s))); }
        for (const a of fix.slice(0, 8)) holes.$m.push(() => V.int(a.at()));
        for (const key of locs) {
            const x = eng.getLoc(h, key); if (!x) continue;
            if (x.t === 'str') holes.$s.push(s => eng.getLoc(s, key));
            if (x.t === 'bool') holes.$b.push(s => eng.getLoc(s, key));
            if (x.t === 'val') holes.$v.push(s => eng.getLoc(s, key));
            if (x.t === 'cell' && (x.c.k === 'set' || x.c.k === 'map')) { const id = /^\d+$/.test(key.split('|')[1]) ? Number(key.split('|')[1]) : key.split('|')[1]; holes.$e.push(() => ({ t: 'ref', id })); }
            if (x.t === 'ref') {
                const cell = h.heap.get(x.id);
                if (cell && (cell.k === 'arr' || cell.k === 'tup') && (key[0] === 'c' || cell.k === 'arr')) holes.$a.push(s => eng.getLoc(s, key));
                if (cell && cell.k === 'rec') for (const f of Object.keys(cell.fields)) { const y = cell.fields[f]; const g = s => s.heap.get(eng.getLoc(s, key).id).fields[f]; if (y.t === 'val') holes.$v.push(g); if (y.t === 'str') holes.$s.push(g); if (y.t === 'bool') holes.$b.push(g); }
            }
        }
        const out = [];
        inv.forEach((fn, ti) => {
            const { parseFn } = require('./spec');
            const node = parseFn(fn);
            const names = node.parameters[0] ? node.parameters[0].name.elements.map(e => (e.propertyName || e.name).text).filter(n => n[0] === '$') : [];
            const lists = names.map(n => holes[n.slice(0, 2)] || []);
            let combos = [[]];
            lists.forEach((l, i) => { const nx = []; for (const cb of combos) for (const x of l) if (!cb.some((y, j) => y === x && names[j].slice(0, 2) === names[i].slice(0, 2))) nx.push([...cb, x]); combos = nx.slice(0, 400); });
            for (const cb of combos) {
                out.push({ nm: 'template' + ti, at: s => { const env = { ...env0, entry: undefined }; names.forEach((n, i) => { const y = cb[i](s); if (y === undefined) throw Object.assign(new Error('hole'), { spec: true }); env[n] = y; }); return spec.clause(fn, env, s); } });
            }
        });
        // without templates of its own: what is promised of the result may already hold of a running value
        if (!inv.length) for (const [nm, fn] of Object.entries(c.ensures || {})) {
            if (!/\bresult\b/.test(String(fn)) || !/forall/.test(String(fn))) continue;
            for (const y of [...holes.$i, ...holes.$a].slice(0, 6)) out.push({ nm: 'template-' + nm, at: s => { const r = y(s); if (r === undefined) throw Object.assign(new Error('hole'), { spec: true }); return spec.clause(fn, { ...env0, result: r, entry: undefined }, s); } });
        }
        return out;
    };
}
// resolve kinds a clause asks for by splitting the outcome
function evalClause(eng, spec, fn, env, st, k) {
    let t;
    try { t = spec.clause(fn, env, st); }
    catch (e) {
        if (e.need) {
            const outs = eng.refine(st, e.need);
            return outs.flatMap(o => evalClause(eng, spec, fn, env, o.st, k));
        }
        throw e;
    }
    return [{ st, t }];
}
function verify(c, opts = {}) {
    if (!c.abstract) {
        const t0 = Date.now(), a = verify1(c, opts);
        // a second attempt with the wider invariant candidates before reporting an unproved obligation
        if (a.status === 'proved' || !a.loops.length || Date.now() - t0 > 60000) return a;
        const b = verify1(c, { ...opts, suspects: true, budget: Math.min(opts.budget || 90000, 90000) });
        return b.status === 'proved' ? b : a;
    }
    const a = verify1(c, { ...opts, abstract: true });
    if (a.status === 'proved') return a;
    const b = verify1(c, { ...opts, budget: Math.min(opts.budget || 40000, 40000) });
    return b.status === 'proved' ? b : a;
}
function verify1(c, opts = {}) {
    const t0 = Date.now(); let nfail = 0;
    const loader = new Loader();
    const solver = new Solver({ timeout: opts.timeout || 4000 });
    const rep = { id: c.id, obligations: [], status: 'proved', notes: [], functions: [], loops: [], assumptions: [] };
    solver.cvcFirst = !!(c.engine && c.engine.cvcFirst);
    const eng = new Engine(loader, solver, { deadline: t0 + (opts.budget || 150000), trusted: trusted.handlers, summaries: sumsOf(loader, c, opts.lib), suspects: opts.suspects, ...(c.engine || {}) });
    if (opts.abstract) {
        eng.abstractKeys = new Map();
        for (const n of c.abstract) { const u = c.uses[n], r = loader.findExport(path.join(REPO, typeof u === 'string' ? u : u.file), typeof u === 'string' ? 'default' : u.export); if (r && r.mod) eng.abstractKeys.set(r.mod.file.slice(REPO.length + 1) + '#' + r.name, r); }
    }
    const spec = new Spec(eng);
    eng.spec = spec; eng.obl = (name, status, info) => rep.obligations.push({ name: `${c.id}:${name}`, status, ...info });
    eng.snapshotEnv = snapshotEnv;
    const obl = (name, status, info) => { rep.obligations.push({ name: `${c.id}:${name}`, status, ...info }); };
    try {
        const st = new St();
        st.heap.set('clock', { k: 'clock', e: '0' });
        st.heap.set('await', { k: 'await', n: '0', vals: eng.decl('aw0', '(Array Int Val)') });
        st.heap.set('timers', { k: 'timers', live: [] });
        st.heap.set('trace:%timer', { k: 'trace', n: '0', args: eng.decl('tmargs', '(Array Int (JSeq Val))'), clk: eng.decl('tmclk', '(Array Int Int)'), aw: eng.decl('tmaw', '(Array Int Int)') });
        st.heap.set('now', { k: 'now', n: '0', vals: eng.decl('nowv', '(Array Int Int)') });
        st.heap.set('ext', { k: 'ext', calls: [] });
        st.heap.set('rand', { k: 'rand', n: '0', vals: eng.decl('rndv', '(Array Int Real)') });
        st.heap.set('trace:%opaque', { k: 'trace', n: '0', args: eng.decl('oargs', '(Array Int (JSeq Val))'), clk: eng.decl('oclk', '(Array Int Int)'), aw: eng.decl('oaw', '(Array Int Int)'), callee: eng.decl('ocallee', '(Array Int Val)'), fthrow: eng.declFun('othrow', ['Int'], 'Bool'), fexc: eng.declFun('oexc', ['Int'], 'Val'), fret: eng.declFun('oret', ['Int'], 'Val') });
        let fnv;
        if (c.drive) {
            const { m, node } = driveModule(loader, c);
            const fr = eng.modFrame(st, m); st.frame = fr;
            fnv = eng.closure(st, node, fr, null);
        } else {
            const r = findFn(loader, c);
            if (!r) { obl('exists', 'failed', { detail: `no export ${c.export || 'default'} in ${c.file}` }); rep.status = 'failed'; return rep; }
            const fr = eng.modFrame(st, r.mod); st.frame = fr;
            const o = eng.global(r, st, r.node);
            if (o.length !== 1 || !o[0].v) throw new Error('cannot load function');
            fnv = o[0].v;
            const cell = st.heap.get(fnv.id); if (cell && cell.key) { rep.functions.push(cell.key); eng.current = { key: cell.key, recursive: c.recursive, ...c }; }
        }
        const names = Object.keys(c.params || {});
        let starts = [{ st, v: [] }];
        for (const n of names) starts = starts.flatMap(s => c.params[n].mk(eng, s.st.clone(), n).map(x => ({ st: x.st, v: [...s.v, x.v] })));
        eng.specTemplates = templates(eng, spec, c);
        let reach = 0;
        if (c.requires) for (const f of [].concat(c.requires)) starts = starts.flatMap(s => evalClause(eng, spec, f, snapshotEnv(eng, s.st, names, s.v), s.st).map(o => { o.st.assume(o.t); return { st: o.st, v: s.v }; }));
        for (const s of starts) {
            const env0 = snapshotEnv(eng, s.st, names, s.v);
            // a state with quantified preconditions may be "unknown": only a definite unsat is vacuous
            if (!eng.feasible(s.st)) continue;
            reach++;
            eng.specEnv = env0;
            const lenientArgs = s.v.map((v, i) => c.params[names[i]].rest ? { spread: s.st.heap.get(v.id) } : { v });
            while (!c.keepUndef && lenientArgs.length && lenientArgs[lenientArgs.length - 1].v && lenientArgs[lenientArgs.length - 1].v.t === 'undef') lenientArgs.pop();
            const heap0 = new Map(s.st.heap);
            let outs = eng.call(s.st, fnv, c.thisv || V.undef, lenientArgs, null);
            // a promise still waiting for a timer: let time pass
            if (!c.rawPromise) outs = outs.flatMap(o => { if (!o.v || o.v.t !== 'prom' || !o.v.pending) return [o]; try { return eng.settlePending(o.st, o.v, null); } catch (e) { if (!e.unsup && e.constructor.name !== 'Unsupported') throw e; return [{ st: o.st, unsup: e.message }]; } });
            let pi = 0;
            for (const o of outs) {
                pi++;
                if (o.unsup) { if (!eng.feasible(o.st)) continue; obl('in-fragment', 'unsupported', { detail: o.unsup }); continue; }
                const env = { ...env0 };
                let thrown = o.thrown || null, v = o.v;
                if (!thrown && v && v.t === 'prom' && !c.rawPromise) { if (v.pending) { obl('settles', 'unsupported', { detail: 'pending promise' }); continue; } if (v.ok) v = v.v; else { thrown = v.v; v = null; } }
                if (!thrown) { const d = eng.deref(o.st, v); v = d[0].v; }
                env.threw = V.bool(String(!!thrown)); env.result = thrown ? V.undef : v; env.error = thrown || V.undef;
                const clauses = { ...(thrown ? c.throws || { 'does-not-throw': () => false } : { ...c.ensures, ...c.proves }), ...(c.always || {}), ...(c.alwaysProves || {}) };
                for (const [nm, fn] of Object.entries(clauses)) proveClause(nm, fn, env, o.st, s);
                // frame
                for (let i = 0; i < names.length; i++) {
                    if ((c.modifies || []).includes(names[i]) || s.v[i].t !== 'ref') continue;
                    frameCheck(names[i], heap0.get(s.v[i].id), o.st.heap.get(s.v[i].id), o.st);
                }
            }
        }
        if (!reach) obl('non-vacuous', 'failed', { detail: 'the precondition is unsatisfiable' });
        else rep.reach = reach;
        for (const l of eng.loopReport || []) {
            rep.loops.push(l);
            if (l.term === false) { if (c.noTermination) rep.assumptions.push('termination of the loop at ' + l.at + ' is not part of the contract: ' + c.noTermination); else obl('terminates', 'unknown', { detail: 'no decreasing measure found for the loop at ' + l.at }); }
            else obl('terminates', 'proved', { detail: l.at });
            rep.obligations.push({ name: `${c.id}:invariant`, status: 'proved', detail: `${l.at}: ${l.invs} facts inductive over ${l.steps} step paths` });
        }
    } catch (e) {
        if (e.unsup) obl('in-fragment', 'unsupported', { detail: e.message });
        else if (e instanceof Budget) obl('in-budget', 'unknown', { detail: e.message });
        else if (e.spec) obl('specification', 'unsupported', { detail: e.message });
        else if (e.smt) obl('solver', 'unknown', { detail: e.message.slice(0, 1500) });
        else { if (opts.debug) throw e; obl('internal', 'unknown', { detail: (e.stack || e.message).slice(0, 1500) }); }
    }
    function frameCheck(nm, a, b, st) {
        if (a === b) { obl('frame-' + nm, 'proved', { by: 'syntactic' }); return; }
        if (a.k === 'arr' && b.k === 'arr' && a.arr === b.arr && a.len === b.len) { obl('frame-' + nm, 'proved', { by: 'syntactic' }); return; }
        if (a.k === 'arr' && b.k === 'arr' && TT.sameElem(a.el, b.el)) {
            const r = solver.prove(st.pc, and([eq(a.len, b.len), `(forall ((k Int)) (=> (and (<= 0 k) (< k ${a.len})) (= (select ${a.arr} k) (select ${b.arr} k))))`]), opts);
            obl('frame-' + nm, r.ok ? 'proved' : 'failed', { by: r.by, detail: r.ok ? undefined : 'argument ' + nm + ' may be modified' }); return;
        }
        if (a.k === 'tup' && b.k === 'tup' && a.items.length === b.items.length && a.items.every((x, i) => eng.sameV(x, b.items[i]))) { obl('frame-' + nm, 'proved', { by: 'syntactic' }); return; }
        if (a.k === 'rec' && b.k === 'rec') { const ka = Object.keys(a.fields), kb = Object.keys(b.fields); if (ka.length === kb.length && ka.every(k => b.fields[k] && eng.sameV(a.fields[k], b.fields[k]))) { obl('frame-' + nm, 'proved', { by: 'syntactic' }); return; } }
        if (a.k === 'cb' || a.k === 'clo') { return; }
        if (!eng.feasible(st)) return;
        obl('frame-' + nm, 'failed', { detail: 'argument ' + nm + ' may be modified' });
    }
    function proveClause(nm, fn, env, st, s) {
        let parts;
        try { parts = evalClause(eng, spec, fn, env, st, 0); }
        catch (e) { if (e.unsup || e.spec) { if (!eng.feasible(st)) return; obl(nm, 'unsupported', { detail: e.message }); return; } throw e; }
        for (const { st, t } of parts) {
            if (t === 'true') { obl(nm, 'proved', { by: 'evaluation' }); continue; }
            eng.tick();
            const tq = Date.now();
            const r = solver.prove(st.pc, t, nfail > 2 ? { timeout: 1500, fast: true } : { timeout: opts.timeout || 4000, slowTimeout: opts.slowTimeout || 10000 });
            if (r.ok) { obl(nm, 'proved', { by: r.by, ms: Date.now() - tq }); if (parts.length === 1) st.pc.push(t); continue; } // later clauses may use it
            if (opts.dump) { require('fs').writeFileSync(opts.dump, solver.script([...st.pc, not(t)])); }
            nfail++;
            let model = null;
            try { model = modelArgs(eng, solver, st, t, s, Object.keys(c.params || {}), c); } catch (e) { if (opts.debug) console.error('model', e.message); }
            obl(nm, r.res === 'sat' ? 'failed' : 'unknown', { by: r.by, goal: t.slice(0, 600), model, hypotheses: st.pc.length });
        }
    }
    rep.wall = Date.now() - t0;
    rep.smt = { ...solver.stats, by: solver.by };
    for (const a of eng.assumptions) rep.assumptions.push(a);
    for (const k of eng.inlined) if (!rep.functions.includes(k)) rep.functions.push(k);
    rep.called = [...eng.called];
    const bad = rep.obligations.filter(o => o.status !== 'proved');
    rep.status = bad.length ? 'failed' : rep.obligations.length ? 'proved' : 'empty';
    solver.close();
    return rep;
}
// read concrete arguments out of a counter-model (best effort, then replayed)
function modelArgs(eng, solver, st, goal, s, names, c) {
    const asserts = [...st.pc, not(goal)];
    const ask = (terms, extra = []) => { const r = solver.check([...asserts, ...extra], { timeout: 2500, getValues: terms }); if (!r.values) return null; return splitPairs(r.values, terms.length); };
    const out = {};
    names.forEach((n, i) => {
        const v = s.v[i];
        try { out[n] = conc(v); } catch { out[n] = { $no: true }; }
    });
    return out;
    function conc(v) {
        switch (v.t) {
            case 'undef': return { $u: 1 }; case 'null': return null;
            case 'int': { const r = ask([v.e]); return num(r[0]); }
            case 'bool': return ask([v.e])[0] === 'true';
            case 'str': return str(ask([v.e])[0]);
            case 'fp': return fp(ask([v.e])[0]);
            case 'val': return val(ask([v.e])[0]);
            case 'ref': {
                const cell = s.st.heap.get(v.id);
                if (cell.k === 'arr') {
                    const L = num(ask([cell.len])[0]); if (L > 40) return { $no: true };
                    if (typeof cell.el === 'object') return { $no: true };
                    const r = L ? ask(Array.from({ length: L }, (_, k) => `(select ${cell.arr} ${k})`), [eq(cell.len, String(L))]) : [];
                    return r.map(x => cell.el === 'int' ? num(x) : cell.el === 'str' ? str(x) : cell.el === 'bool' ? x === 'true' : cell.el === 'fp' ? fp(x) : val(x));
                }
                if (cell.k === 'tup') return cell.items.map(conc);
                if (cell.k === 'rec') return Object.fromEntries(Object.entries(cell.fields).map(([k, x]) => [k, conc(x)]));
            }
        }
        return { $no: true };
    }
    function num(t) { const m = /^\(- (\d+)\)$/.exec(t); return m ? -Number(m[1]) : Number(t); }
    function str(t) { return t.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-f]+)\}/g, (_, h) => String.fromCharCode(parseInt(h, 16))); }
    function fp(t) { let m; if (/NaN/.test(t)) return { $n: 'NaN' }; if (/-oo/.test(t)) return { $n: '-Infinity' }; if (/\+oo/.test(t)) return { $n: 'Infinity' }; if (/-zero/.test(t)) return { $n: '-0' }; if (/\+zero/.test(t)) return 0; if ((m = /^\(fp #b(\d) #b(\d+) #x([0-9a-f]+)\)$/.exec(t))) { const bits = m[1] + m[2] + m[3].split('').map(h => parseInt(h, 16).toString(2).padStart(4, '0')).join(''); const dv = new DataView(new ArrayBuffer(8)); dv.setBigUint64(0, BigInt('0b' + bits)); return dv.getFloat64(0); } return { $no: true }; }
    function val(t) {
        let m;
        if (t === 'VUndef') return { $u: 1 }; if (t === 'VNull') return null;
        if ((m = /^\(VBool (true|false)\)$/.exec(t))) return m[1] === 'true';
        if ((m = /^\(VInt (.*)\)$/.exec(t))) return num(m[1]);
        if ((m = /^\(VStr (".*")\)$/s.exec(t))) return str(m[1]);
        if ((m = /^\(VFp (.*)\)$/.exec(t))) return fp(m[1]);
        if ((m = /^\(VObj (.*)\)$/.exec(t))) return { $obj: m[1] };
        if ((m = /^\(VFn (.*)\)$/.exec(t))) return { $fn: m[1] };
        if ((m = /^\(VBig (.*)\)$/.exec(t))) return { $big: String(num(m[1])) };
        if ((m = /^\(VSym (.*)\)$/.exec(t))) return { $sym: m[1] };
        return { $no: true };
    }
    function splitPairs(txt, n) { // ((t v) (t v))
        const out = []; let i = txt.indexOf('(') + 1;
        const skip = () => { while (/\s/.test(txt[i])) i++; };
        const read = () => { skip(); const a = i; if (txt[i] === '(') { let d = 0; for (;; i++) { if (txt[i] === '"') { i++; while (!(txt[i] === '"' && txt[i + 1] !== '"')) { if (txt[i] === '"') i++; i++; } continue; } if (txt[i] === '(') d++; if (txt[i] === ')') { d--; if (!d) { i++; break; } } } } else if (txt[i] === '"') { i++; while (!(txt[i] === '"' && txt[i + 1] !== '"')) { if (txt[i] === '"') i++; i++; } i++; } else while (!/[\s()]/.test(txt[i])) i++; return txt.slice(a, i); };
        for (let k = 0; k < n; k++) { skip(); if (txt[i] !== '(') return out; i++; read(); const v = read(); out.push(v); skip(); i++; }
        return out;
    }
}
module.exports = { verify };
