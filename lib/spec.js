'use strict';
// Symbolic reading of specification clauses: pure terms over an engine state.
const { ts } = require('./loader');
const T = require('./values');
const { V, and, or, not, implies, eq, ite, add, sub, mul, cmp, strLit, isNumLit, litVal, sortOf } = T;
const { reg } = require('./speclib');
const K = ts.SyntaxKind;

class SpecError extends Error { constructor(m) { super('spec: ' + m); this.spec = true; } }
const E = m => { throw new SpecError(m); };
const cache = new Map();
function parseFn(fn) {
    let r = cache.get(fn); if (r) return r;
    const sf = ts.createSourceFile('spec.js', '(' + fn.toString() + ')', ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    let e = sf.statements[0].expression; while (ts.isParenthesizedExpression(e)) e = e.expression;
    if (!ts.isArrowFunction(e) && !ts.isFunctionExpression(e)) E('clause is not a function');
    cache.set(fn, e); return e;
}
class Spec {
    constructor(eng) { this.eng = eng; this.recs = new Map(); this.uid = 0; }
    // env: name -> V ; clause receives one destructured parameter
    clause(fn, env, st) {
        const node = parseFn(fn), was = this.eng.inSpec;
        this.eng.inSpec = true;
        try { return this.bool(this.apply(node, [{ t: 'env', env }], null, st, env), st); } finally { this.eng.inSpec = was; }
    }
    bool(v, st) { if (v.t === 'bool') return v.e; return this.eng.truthy(st, v); }
    apply(node, args, scope, st, env) {
        const s = { up: scope, vars: new Map(), env: env || (scope && scope.env) };
        node.parameters.forEach((p, i) => this.bindP(p.name, args[i] || V.undef, s, st));
        if (!ts.isBlock(node.body)) return this.ev(node.body, s, st);
        return this.block(node.body.statements, 0, s, st);
    }
    bindP(n, v, s, st) {
        if (ts.isIdentifier(n)) { s.vars.set(n.text, v); return; }
        if (ts.isObjectBindingPattern(n)) {
            for (const e of n.elements) {
                const k = (e.propertyName || e.name).text;
                if (v.t === 'env') { if (!(k in v.env)) { if (k.startsWith('$')) E('hole ' + k); this.bindP(e.name, V.undef, s, st); } else this.bindP(e.name, v.env[k], s, st); }
                else this.bindP(e.name, this.member(v, k, st), s, st);
            }
            return;
        }
        if (ts.isArrayBindingPattern(n)) { n.elements.forEach((e, i) => { if (!ts.isOmittedExpression(e)) this.bindP(e.name, this.index(v, V.int(String(i)), st), s, st); }); return; }
        E('pattern');
    }
    block(stmts, i, s, st) {
        for (; i < stmts.length; i++) {
            const n = stmts[i];
            if (ts.isVariableStatement(n)) { for (const d of n.declarationList.declarations) this.bindP(d.name, this.lazy(d.initializer, s, st), s, st); continue; }
            if (ts.isReturnStatement(n)) return this.ev(n.expression, s, st);
            if (ts.isIfStatement(n)) {
                const c = this.bool(this.ev(n.expression, s, st), st);
                const thenS = ts.isBlock(n.thenStatement) ? n.thenStatement.statements : [n.thenStatement];
                if (c === 'true') return this.block(thenS, 0, s, st);
                const rest = () => n.elseStatement ? this.block(ts.isBlock(n.elseStatement) ? n.elseStatement.statements : [n.elseStatement], 0, s, st) : this.block(stmts, i + 1, s, st);
                if (c === 'false') return rest();
                return this.join(c, this.block(thenS, 0, s, st), rest(), st);
            }
            E('statement');
        }
        return V.undef;
    }
    lazy(n, s, st) { return this.ev(n, s, st); }
    lookup(name, s) {
        for (let x = s; x; x = x.up) if (x.vars.has(name)) return x.vars.get(name);
        if (name === 'undefined') return V.undef; if (name === 'NaN') return V.num(NaN); if (name === 'Infinity') return V.num(Infinity);
        return null;
    }
    join(c, a, b, st) {
        if (c === 'true') return a; if (c === 'false') return b;
        if (a.t === 'bool' && b.t === 'bool') return V.bool(ite(c, a.e, b.e) === `(ite ${c} ${a.e} ${b.e})` ? (a.e === 'false' ? and([not(c), b.e]) : b.e === 'false' ? and([c, a.e]) : a.e === 'true' ? or([c, b.e]) : b.e === 'true' ? implies(c, a.e) : `(ite ${c} ${a.e} ${b.e})`) : ite(c, a.e, b.e));
        if (a.t === b.t && ['int', 'str', 'fp', 'real', 'val', 'big'].includes(a.t)) return { t: a.t, e: ite(c, a.e, b.e) };
        if (a.t === 'seq' && b.t === 'seq' && JSON.stringify(a.el) === JSON.stringify(b.el)) return { t: 'seq', el: a.el, arr: ite(c, a.arr, b.arr), len: ite(c, a.len, b.len) };
        if ((a.t === 'real' || a.t === 'int') && (b.t === 'real' || b.t === 'int')) return V.real(ite(c, this.eng.toReal(a), this.eng.toReal(b)));
        return V.val(ite(c, this.box(a, st), this.box(b, st)));
    }
    box(v, st) { if (v.t === 'seq') E('boxing a sequence'); return this.eng.box(this.der(v, st), st); }
    der(v, st) { // resolve already-chosen refinements only
        if (v.t === 'val') { const k = 'val:' + v.e; if (st.heap.has(k)) return st.heap.get(k); const u = this.eng.unboxSyn(v.e); if (u) return u; }
        return v;
    }
    ev(n, s, st) { return this.der(this.ev0(n, s, st), st); }
    ev0(n, s, st) {
        switch (n.kind) {
            case K.ParenthesizedExpression: return this.ev(n.expression, s, st);
            case K.NumericLiteral: return V.num(Number(n.text));
            case K.BigIntLiteral: return V.big(n.text.replace(/n$/, ''));
            case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return V.lit(n.text);
            case K.RegularExpressionLiteral: return { t: 'regex', src: n.text };
            case K.TrueKeyword: return V.bool('true'); case K.FalseKeyword: return V.bool('false'); case K.NullKeyword: return V.nul;
            case K.Identifier: { const v = this.lookup(n.text, s); if (v) return v; if (reg.has(n.text)) return { t: 'specfn', name: n.text }; E('unbound ' + n.text); break; }
            case K.ArrowFunction: case K.FunctionExpression: return { t: 'lam', node: n, s };
            case K.ConditionalExpression: {
                const c = this.bool(this.ev(n.condition, s, st), st);
                if (c === 'true') return this.ev(n.whenTrue, s, st); if (c === 'false') return this.ev(n.whenFalse, s, st);
                return this.join(c, this.ev(n.whenTrue, s, st), this.ev(n.whenFalse, s, st), st);
            }
            case K.PrefixUnaryExpression: {
                const v = this.ev(n.operand, s, st);
                if (n.operator === K.ExclamationToken) return V.bool(not(this.bool(v, st)));
                if (n.operator === K.MinusToken) { if (v.t === 'int') return isNumLit(v.e) && litVal(v.e) === 0n ? V.num(-0) : V.int(isNumLit(v.e) ? T.intLit(-litVal(v.e)) : `(- ${v.e})`); if (v.t === 'fp') return v.c !== undefined ? V.num(-v.c) : V.fp(`(fp.neg ${v.e})`); if (v.t === 'real') return V.real(`(- ${v.e})`); }
                if (n.operator === K.PlusToken) return v;
                return E('prefix');
            }
            case K.TypeOfExpression: return { t: 'typeof', v: this.ev(n.expression, s, st) };
            case K.ArrayLiteralExpression: { const items = n.elements.map(e => this.ev(e, s, st)); return { t: 'stup', items }; }
            case K.BinaryExpression: return this.bin(n, s, st);
            case K.PropertyAccessExpression: { if (ts.isIdentifier(n.expression) && n.expression.text === 'Symbol') return this.eng.wellKnown(n.name.text); if (n.name.text === 'MAX_SAFE_INTEGER') return V.num(Number.MAX_SAFE_INTEGER); return this.member(this.ev(n.expression, s, st), n.name.text, st); }
            case K.ElementAccessExpression: { const o = this.ev(n.expression, s, st), k = this.ev(n.argumentExpression, s, st); return this.index(o, k, st); }
            case K.CallExpression: return this.call(n, s, st);
            case K.TemplateExpression: { const parts = [strLit(n.head.text)]; for (const sp of n.templateSpans) { const v = this.ev(sp.expression, s, st); parts.push(this.str(v), strLit(sp.literal.text)); } return V.str(this.eng.concatStr(parts)); }
        }
        return E('syntax ' + K[n.kind]);
    }
    str(v) { if (v.t === 'str') return v.e; if (v.t === 'int') return isNumLit(v.e) ? strLit(String(litVal(v.e))) : `(num2str ${v.e})`; if (v.t === 'val') return `(vs ${v.e})`; if (v.t === 'fp') return `(val2str (VFp ${v.e}))`; return E('string of ' + v.t); }
    int(v) { if (v.t === 'int') return v.e; if (v.t === 'val') return `(vi ${v.e})`; return E('integer expected, got ' + v.t); }
    seq(v, st) {
        if (v.t === 'seq') return v;
        if (v.t === 'ref') { const c = st.heap.get(v.id); if (c && (c.k === 'arr' || c.k === 'tup')) { if (c.k === 'arr') return { t: 'seq', el: c.el, arr: c.arr, len: c.len, cat: c.cat }; const a = this.eng.asArr(st, v); return { t: 'seq', el: a.el, arr: a.arr, len: a.len, cat: a.el === 'str' ? this.eng.concatStr(c.items.map(x => x.e)) : undefined, tup: c.items }; } }
        if (v.t === 'val') return { t: 'seq', el: 'val', arr: `(oarr (vo ${v.e}))`, len: `(olen (vo ${v.e}))` };
        return E('sequence expected, got ' + v.t);
    }
    elem(e, el) { if (typeof el === 'object') return { t: 'seq', el: el.seq, arr: `(sarr ${e})`, len: `(slen ${e})` }; return el === 'real' ? V.real(e) : this.eng.fromElemPure(e, el); }
    index(o, k, st) {
        if (o.t === 'stup' && isNumLit(k.e)) return o.items[Number(litVal(k.e))] || V.undef;
        if (o.t === 'str') return V.str(`(str.at ${o.e} ${this.int(k)})`);
        if (o.t === 'ref') {
            const c = st.heap.get(o.id);
            if (k.t === 'sym' && c.boxed) return V.val(`(oprop ${c.boxed} ${this.box(k, st)})`);
            if (c.k === 'tup' && isNumLit(k.e)) { const i = Number(litVal(k.e)); return i >= 0 && i < c.items.length ? this.der(c.items[i], st) : V.undef; }
            if (c.k === 'tup') { if (!c.items.length) return V.undef; let a; try { a = this.seq(o, st); } catch (e) { if (!e.unsup) throw e; let r = c.items[c.items.length - 1]; for (let i = c.items.length - 2; i >= 0; i--) r = this.join(eq(k.e, String(i)), c.items[i], r, st); return r; } return this.elem(`(select ${a.arr} ${this.int(k)})`, a.el); }
            if (c.k === 'arr') return this.elem(`(select ${c.arr} ${this.int(k)})`, c.el);
            if (c.k === 'rec' && k.t === 'int' && isNumLit(k.e)) return this.member(o, String(litVal(k.e)), st);
            if (c.k === 'rec' && k.t === 'str') { const m = /^"((?:[^"]|"")*)"$/.exec(k.e); if (m) return this.member(o, m[1].replace(/""/g, '"'), st); }
        }
        if (o.t === 'seq') return this.elem(`(select ${o.arr} ${this.int(k)})`, o.el);
        if (o.t === 'val' && k.t === 'str') return V.val(`(oprop ${o.e} ${this.box(k, st)})`);
        if (o.t === 'obj' || o.t === 'ofn') return V.val(`(oprop ${o.e} ${this.box(k, st)})`);
        return E('index of ' + o.t);
    }
    member(o, name, st) {
        if (name === 'length') {
            if (o.t === 'str') return V.int(this.eng.strLen(o.e));
            if (o.t === 'stup') return V.int(String(o.items.length));
            if (o.t === 'ref') { const c = st.heap.get(o.id); if (c.k === 'arr' || c.k === 'tup') return V.int(this.eng.arrLen(st, o)); }
            if (o.t === 'seq') return V.int(o.len);
            if (o.t === 'val') return V.int(`(olen (vo ${o.e}))`);
        }
        if (o.t === 'ref') {
            const c = st.heap.get(o.id);
            if ((c.k === 'arr' || c.k === 'tup') && !(name in Array.prototype)) return c.boxed ? V.val(`(oprop ${c.boxed} (VStr ${strLit(name)}))`) : V.undef;
            if (c.k === 'rec') return Object.prototype.hasOwnProperty.call(c.fields, name) ? c.fields[name] : V.undef;
            if (c.k === 'err') return name === 'name' ? V.lit(c.name) : (c.fields[name] || V.undef);
            if ((c.k === 'clo' || c.k === 'cb') && c.props) return c.props[name] || V.undef;
        }
        if (o.t === 'obj' || o.t === 'val' || o.t === 'ofn') return V.val(`(oprop ${o.e} (VStr ${strLit(name)}))`);
        if (['int', 'fp', 'bool', 'big', 'sym', 'str'].includes(o.t) && !(name in Object({ int: 0, fp: 0, bool: true, big: 0n, sym: Symbol.iterator, str: '' }[o.t]))) return V.undef;
        if (o.t === 'undef' || o.t === 'null') return V.undef; // only under a guard that is false here
        if (o.t === 'env') return o.env[name] || V.undef;
        return E(`member ${o.t}.${name}`);
    }
    typeTest(v, name) {
        const t = { undefined: 'VUndef', boolean: 'VBool', string: 'VStr', bigint: 'VBig', symbol: 'VSym', function: 'VFn' }[name];
        if (v.t !== 'val') { return this.eng.typeOf(null, v) === name ? 'true' : 'false'; }
        if (t) return `((_ is ${t}) ${v.e})`;
        if (name === 'number') return or([`((_ is VInt) ${v.e})`, `((_ is VFp) ${v.e})`]);
        if (name === 'object') return or([`((_ is VNull) ${v.e})`, `((_ is VObj) ${v.e})`]);
        return 'false';
    }
    eqv(a, b, st) {
        if (a.t === 'typeof' || b.t === 'typeof') { const [x, y] = a.t === 'typeof' ? [a, b] : [b, a]; const nm = y.e.slice(1, -1); if (x.v.t === 'ref') return String(this.eng.typeOf(st, x.v) === nm); return this.typeTest(x.v, nm); }
        if (a.t === 'seq' || b.t === 'seq') E('=== on sequences');
        return this.eng.strictEq(st, a, b);
    }
    bin(n, s, st) {
        const op = n.operatorToken.kind;
        if (op === K.AmpersandAmpersandToken) { const a = this.bool(this.ev(n.left, s, st), st); if (a === 'false') return V.bool('false'); const b = this.bool(this.ev(n.right, s, st), st); return V.bool(and([a, b])); }
        if (op === K.BarBarToken) { const a = this.bool(this.ev(n.left, s, st), st); if (a === 'true') return V.bool('true'); const b = this.bool(this.ev(n.right, s, st), st); return V.bool(or([a, b])); }
        let a = this.ev(n.left, s, st), b = this.ev(n.right, s, st);
        if (op === K.EqualsEqualsEqualsToken) return V.bool(this.eqv(a, b, st));
        if (op === K.ExclamationEqualsEqualsToken) return V.bool(not(this.eqv(a, b, st)));
        if (op === K.InstanceOfKeyword) E('instanceof');
        const rel = { [K.LessThanToken]: '<', [K.LessThanEqualsToken]: '<=', [K.GreaterThanToken]: '>', [K.GreaterThanEqualsToken]: '>=' }[op];
        if (a.t === 'val') a = V.int(`(vi ${a.e})`); if (b.t === 'val') b = V.int(`(vi ${b.e})`);
        if (rel) return V.bool(this.eng.compare(rel, a, b));
        if (op === K.PlusToken && (a.t === 'str' || b.t === 'str')) return V.str(this.eng.concatStr([this.str(a), this.str(b)]));
        if (a.t === 'int' && b.t === 'int') {
            switch (op) {
                case K.PlusToken: return V.int(add(a.e, b.e)); case K.MinusToken: return V.int(sub(a.e, b.e)); case K.AsteriskToken: return V.int(mul(a.e, b.e));
                case K.PercentToken: return V.int(this.eng.divMod(a.e, b.e).r);
                case K.SlashToken: return V.real(`(/ ${this.eng.toReal(a)} ${this.eng.toReal(b)})`, { a: a.e, b: b.e });
            }
        }
        if (a.t === 'fp' || b.t === 'fp') { const [x, y] = this.eng.toFp2(a, b); const f = { [K.PlusToken]: 'fp.add', [K.MinusToken]: 'fp.sub', [K.AsteriskToken]: 'fp.mul', [K.SlashToken]: 'fp.div' }[op]; if (f) return V.fp(`(${f} RNE ${x} ${y})`); }
        if (a.t === 'real' || b.t === 'real') { const x = this.eng.toReal(a), y = this.eng.toReal(b); const f = { [K.PlusToken]: '+', [K.MinusToken]: '-', [K.AsteriskToken]: '*', [K.SlashToken]: '/' }[op]; if (f) return V.real(`(${f} ${x} ${y})`); }
        return E('operator on ' + a.t + ',' + b.t);
    }
    cell(f, st) { if (f.t !== 'ref') E('callback expected'); const c = st.heap.get(f.id); if (!c || c.k !== 'cb') E('callback expected'); return { c, tr: st.heap.get('trace:' + c.name) }; }
    quant(q, args, s, st) {
        const lo = this.int(args[0]), hi = this.int(args[1]), lam = args[2];
        if (isNumLit(lo) && isNumLit(hi) && litVal(hi) - litVal(lo) <= 8n) {
            const xs = []; for (let k = litVal(lo); k < litVal(hi); k++) xs.push(this.bool(this.apply(lam.node, [V.int(T.intLit(k))], lam.s, st), st));
            return V.bool(q === 'forall' ? and(xs) : or(xs));
        }
        const k = `q${++this.uid}`;
        const body = this.bool(this.apply(lam.node, [V.int(k)], lam.s, st), st);
        const rng = [cmp('<=', lo, k), cmp('<', k, hi)];
        if (q === 'exists') return V.bool(body === 'false' ? 'false' : `(exists ((${k} Int)) ${and([...rng, body])})`);
        if (body === 'true') return V.bool('true');
        return V.bool(`(forall ((${k} Int)) ${this.pat(`(=> ${and(rng)} ${body})`, body, k)})`);
    }
    pat(t, body, k) { // triggers: every select / uninterpreted application directly on k
        const ps = new Set();
        const re = new RegExp(`\\((select|jsmod|jsdiv|[A-Za-z_][\\w]*!(?:[0-9]+|rec)) `, 'g'); let m;
        while ((m = re.exec(body))) {
            let d = 0, i = m.index; for (; i < body.length; i++) { if (body[i] === '"') { i = body.indexOf('"', i + 1); continue; } if (body[i] === '(') d++; if (body[i] === ')') { d--; if (!d) break; } }
            const t = body.slice(m.index, i + 1);
            if (new RegExp(` ${k}\\)$`).test(t) && !/\b(ite|and|or|not|store|let|forall|exists)\b/.test(t.slice(1)) ) ps.add(t);
        }
        const list = [...ps].filter(p => ![...ps].some(o => o !== p && p.includes(o)));
        if (!list.length) return t;
        return `(! ${t} ${list.slice(0, 5).map(p => `:pattern (${p})`).join(' ')})`;
    }
    call(n, s, st) {
        let f = n.expression; while (ts.isParenthesizedExpression(f)) f = f.expression;
        if (ts.isPropertyAccessExpression(f)) {
            const base = ts.isIdentifier(f.expression) && !this.lookup(f.expression.text, s) ? f.expression.text : null;
            const args = n.arguments.map(a => this.ev(a, s, st));
            if (base === 'Symbol' && f.name.text === 'for') return this.eng.symFor(args[0].e);
            if (base === 'Math' || base === 'Number' || base === 'Object') return this.host(base + '.' + f.name.text, args, st);
            return this.method(this.ev(f.expression, s, st), f.name.text, args, st);
        }
        if (!ts.isIdentifier(f)) E('call');
        const lv = this.lookup(f.text, s);
        if (lv && lv.t === 'lam') return this.apply(lv.node, n.arguments.map(a => this.ev(a, s, st)), lv.s, st);
        const name = f.text;
        // lazy ones
        if (name === 'implies') { const a = this.bool(this.ev(n.arguments[0], s, st), st); if (a === 'false') return V.bool('true'); return V.bool(implies(a, this.bool(this.ev(n.arguments[1], s, st), st))); }
        const A = n.arguments.map(a => this.ev(a, s, st));
        if (!lv && reg.has(name)) return this.regCall(name, A, st);
        switch (name) {
            case 'forall': case 'exists': return this.quant(name, A, s, st);
            // proof-only vocabulary: quantification over values, collection membership
            case 'forallVal': { const k = `v${++this.uid}`; const body = this.bool(this.apply(A[0].node, [V.val(k)], A[0].s, st), st); return V.bool(`(forall ((${k} Val)) ${this.pat(body, body, k)})`); }
            case 'has': { const c = st.heap.get(A[0].id); return V.bool(`(select ${c.mem} ${this.nk(A[1], st)})`); }
            case 'nkey': return V.val(this.nk(A[0], st));
            case 'own': { const c = A[0].t === 'ref' ? st.heap.get(A[0].id) : null, f = c && c.k === 'rec' ? c.fields : A[0].t === 'env' ? A[0].env : null; if (f && !(c && c.boxed) && /^"[^"\\]*"$/.test(A[1].e || '')) return V.bool(String(A[1].e.slice(1, -1) in f)); }
                return V.bool(`(oown ${this.box(A[0], st)} ${this.propKey(A[1], st)})`);
            case 'sourceOf': return V.str(`(${this.eng.srcFun()} ${this.box(A[0], st)})`);
            case 'protoOf': return V.val(`(oproto ${this.box(A[0], st)})`);
            case 'inKey': return V.bool(`(ohas ${this.box(A[0], st)} ${this.propKey(A[1], st)})`);
            case 'inst': return V.bool(['obj', 'ofn', 'val'].includes(A[0].t) || (A[0].t === 'ref' && st.heap.get(A[0].id).boxed) ? `(${this.eng.instFun(A[1].e.slice(1, -1))} ${this.box(A[0], st)})` : 'false');
            case 'builtin': return { t: 'bi', name: A[0].e.slice(1, -1) };
            case 'prop': return V.val(`(oprop ${this.box(A[0], st)} ${this.propKey(A[1], st)})`);
            case 'keysOf': { const lv = A[1] ? Number(this.int(A[1])) : 0, q = this.eng.opaqueKeys(this.box(A[0], st), ['Object.keys', 'Object.getOwnPropertyNames', 'Object.getOwnPropertySymbols', 'Reflect.ownKeys'][lv]); return { t: 'seq', ...q }; }
            case 'uri': return V.str(`(${this.eng.str1('encodeURIComponent')} ${this.str(A[0])})`);
            case 'utc': return V.str(`(vs (oprop ${this.box(A[0], st)} (VStr "%toUTCString")))`);
            case 'stripFront': case 'stripBack': { const rs = require('./regex').oneOf(A[0].src); if (!rs) E('character class'); return V.str(this.eng.strip(name === 'stripFront' ? 'front' : 'back', rs, this.str(A[1]))); }
            case 'stripAll': case 'swapAll': { const rs = require('./regex').oneOf(A[0].src); if (!rs) E('character class'); return V.str(this.eng.gsub(rs, this.str(A[1]), name === 'stripAll' ? '""' : this.str(A[2]))); }
            case 'matches': if (A[0].src[0] !== '<') { const re = require('./regex').compile(A[0].src); if (!re) E('regular expression'); return V.bool(`(str.in_re ${this.str(A[1])} ${re})`); } { const g = `rxg!${A[0].src.slice(1, -1)}`, e = this.eng; e._rxg = e._rxg || new Set(); if (!e._rxg.has(g)) { e._rxg.add(g); e.solver.declare(`(declare-const ${g} Bool)`); } return V.bool(`(${e.rxFun(A[0].src)} ${this.str(A[1])})`); }
            case 'finds': return V.bool(A[0].t === 'regex' ? `(${this.eng.rxFun(A[0].src)} ${this.str(A[1])})` : this.eng.rxFind(this.box(A[0], st), this.str(A[1])));
            case 'isGlobal': { const g = `rxg!${A[0].src.slice(1, -1)}`, e = this.eng; e._rxg = e._rxg || new Set(); if (!e._rxg.has(g)) { e._rxg.add(g); e.solver.declare(`(declare-const ${g} Bool)`); } return V.bool(g); }
            case 'iff': return V.bool(eq(this.bool(A[0], st), this.bool(A[1], st)));
            case 'same': return V.bool(this.same(A[0], A[1], st));
            case 'ncalls': return V.int(this.cell(A[0], st).tr.n);
            case 'nargs': return V.int(`(slen (select ${this.cell(A[0], st).tr.args} ${this.int(A[1])}))`);
            case 'arg': return V.val(`(select (sarr (select ${this.cell(A[0], st).tr.args} ${this.int(A[1])})) ${this.int(A[2])})`);
            case 'ret': { const { c } = this.cell(A[0], st); return c.ret.at(this.eng, c, this.int(A[1]), st, true); }
            case 'threw': { const { c } = this.cell(A[0], st); return c.pure ? V.bool('false') : V.bool(`(${c.fthrow} ${this.int(A[1])})`); }
            case 'exc': { const { c } = this.cell(A[0], st); return V.val(`(${c.fexc} ${this.int(A[1])})`); }
            case 'nreads': return V.int(st.heap.get('now').n);
            case 'readAt': return V.int(`(select ${st.heap.get('now').vals} ${this.int(A[0])})`);
            case 'ndraws': return V.int(st.heap.get('rand').n);
            case 'draw': return V.real(`(select ${st.heap.get('rand').vals} ${this.int(A[0])})`);
            // operations of the host's file system, in order
            case 'fsn': return V.int(String(st.heap.get('ext').calls.length));
            case 'fsname': { const c = this.fsCall(A[0], st); return V.lit(c ? c.op : ''); }
            case 'fsnargs': { const c = this.fsCall(A[0], st); return V.int(String(c ? c.args.length : 0)); }
            case 'fsarg': { const c = this.fsCall(A[0], st); return (c && c.args[Number(this.int(A[1]))]) || V.undef; }
            case 'fsok': { const c = this.fsCall(A[0], st); return V.bool(String(!!c && c.ok)); }
            case 'fsval': { const c = this.fsCall(A[0], st); return c ? c.v : V.undef; }
            case 'fsIs': { const c = this.fsCall(A[0], st); return V.bool(c && c.ok && c.bits ? c.bits[A[1].e.slice(1, -1)] : 'false'); }
            case 'pathFn': return V.str(`(${this.eng.hostFun('path.' + A[0].e.slice(1, -1), A.length - 1)} ${A.slice(1).map(a => this.str(a)).join(' ')})`);
            case 'json': return V.val(`(${this.eng.jsonFun('text')} ${this.box(A[0], st)})`);
            case 'jsonOk': return V.bool(`(${this.eng.jsonFun('ok')} ${this.box(A[0], st)})`);
            case 'ntimers': return V.int(st.heap.get('trace:%timer').n);
            case 'timerMs': return V.val(`(select (sarr (select ${st.heap.get('trace:%timer').args} ${this.int(A[0])})) 0)`);
            case 'timerAt': return V.int(`(select ${st.heap.get('trace:%timer').clk} ${this.int(A[0])})`);
            case 'liveTimers': return V.int(String(st.heap.get('timers').live.length));
            case 'ocalls': return V.int(st.heap.get('trace:%opaque').n);
            case 'ocallee': return V.val(`(select ${st.heap.get('trace:%opaque').callee} ${this.int(A[0])})`);
            case 'onargs': return V.int(`(slen (select ${st.heap.get('trace:%opaque').args} ${this.int(A[0])}))`);
            case 'oarg': return V.val(`(select (sarr (select ${st.heap.get('trace:%opaque').args} ${this.int(A[0])})) ${this.int(A[1])})`);
            case 'owhen': return V.int(`(select ${st.heap.get('trace:%opaque').clk} ${this.int(A[0])})`);
            case 'oret': return V.val(`(${st.heap.get('trace:%opaque').fret} ${this.int(A[0])})`);
            case 'othrew': return V.bool(`(${st.heap.get('trace:%opaque').fthrow} ${this.int(A[0])})`);
            case 'oexc': return V.val(`(${st.heap.get('trace:%opaque').fexc} ${this.int(A[0])})`);
            case 'when': return V.int(`(select ${this.cell(A[0], st).tr.clk} ${this.int(A[1])})`);
            case 'awaits': return V.int(`(select ${this.cell(A[0], st).tr.aw} ${this.int(A[1])})`);
            case 'nawait': return V.int(st.heap.get('await').n);
            case 'awv': return V.val(`(select ${st.heap.get('await').vals} ${this.int(A[0])})`);
            case 'res': return V.val(`(awres ${this.box(A[0], st)})`);
            case 'rej': return V.bool(`(awrej ${this.box(A[0], st)})`);
            case 'reason': return V.val(`(preason ${this.box(A[0], st)})`);
            case 'concat': { const q = this.seq(A[0], st); if (q.cat === undefined) { if (q.len === '0') return V.str('""'); E('no concatenation ghost'); } return V.str(q.cat); }
            case 'sub': return V.str(`(str.substr ${this.str(A[0])} ${this.int(A[1])} ${this.int(A[2])})`);
            case 'code': return V.int(this.eng.codeAt(this.str(A[0]), this.int(A[1])));
            case 'min': return V.int(ite(cmp('<', this.int(A[0]), this.int(A[1])), this.int(A[0]), this.int(A[1])));
            case 'max': return V.int(ite(cmp('>', this.int(A[0]), this.int(A[1])), this.int(A[0]), this.int(A[1])));
            case 'div': return V.int(this.eng.divMod(this.int(A[0]), this.int(A[1])).q);
            case 'mod': return V.int(this.eng.divMod(this.int(A[0]), this.int(A[1])).r);
            case 'asInt': return V.int(this.int(A[0]));
            case 'asNum': return A[0];
            case 'asStr': return A[0].t === 'str' ? A[0] : V.str(`(vs ${this.box(A[0], st)})`);
            case 'asBool': return A[0].t === 'bool' ? A[0] : V.bool(`(vb ${this.box(A[0], st)})`);
            case 'asVal': return V.val(this.box(A[0], st));
            case 'isInt': return A[0].t === 'val' ? V.bool(`((_ is VInt) ${A[0].e})`) : V.bool(String(A[0].t === 'int'));
            case 'isArr': { const a = A[0]; if (a.t === 'val') return V.bool(and([`((_ is VObj) ${a.e})`, `(oisarr (vo ${a.e}))`])); return V.bool(String(a.t === 'seq' || (a.t === 'ref' && ['arr', 'tup'].includes(st.heap.get(a.id).k)))); }
            case 'errName': { const a = A[0]; if (a.t === 'ref' && st.heap.get(a.id).k === 'err') return V.lit(st.heap.get(a.id).name); return V.undef; }
            case 'isErr': { const a = A[0]; return V.bool(String(a.t === 'ref' && st.heap.get(a.id).k === 'err')); }
            case 'truthy': return V.bool(this.bool(A[0], st));
            case 'tag': { if (A[0].t === 'val' && /\bq\d+\b/.test(A[0].e)) return V.str(`(jstag ${A[0].e})`); if (A[0].t === 'val') throw Object.assign(new SpecError('kind needed'), { need: A[0] }); const t = require('./trusted').tagOf(this.eng, st, A[0]); return t || E('tag of ' + A[0].t); }
            case 'valueOf': return A[0].t === 'obj' || A[0].t === 'val' ? V.val(`(oprop ${A[0].e} (VStr "%valueOf"))`) : A[0];
            case 'kindOf': { if (A[0].t === 'val' && /\bq\d+\b/.test(A[0].e)) return V.str(`(jskind ${A[0].e})`); const t = { undef: 'undefined', null: 'null', int: 'int', fp: 'double', str: 'string', bool: 'boolean', big: 'bigint', sym: 'symbol', obj: 'object', ofn: 'function' }[A[0].t]; if (t) return V.lit(t); if (A[0].t === 'ref') { const k = st.heap.get(A[0].id).k; return V.lit(['arr', 'tup'].includes(k) ? 'array' : ['clo', 'cb', 'resolver'].includes(k) ? 'function' : 'object'); } if (A[0].t === 'val') throw Object.assign(new SpecError('kindOf of opaque'), { need: A[0] }); break; }
            case 'pre': E('pre'); break;
        }
        return E('call ' + name);
    }
    propKey(v, st) { return v.t === 'int' ? `(VStr (num2str ${v.e}))` : this.box(v, st); }
    nk(v, st) { const e = this.box(v, st); return v.t === 'val' || v.t === 'fp' ? (/^v\d+$/.test(e) ? e : `(ite (vzero ${e}) (VInt 0) ${e})`) : e; }
    same(a, b, st) {
        if (a.t === 'seq' || b.t === 'seq') E('same on sequences');
        if ((a.t === 'int' && b.t === 'int') || (a.t === b.t && ['str', 'bool', 'big'].includes(a.t))) return eq(a.e, b.e);
        if (a.t === 'ref' && b.t === 'ref') { if (a.id === b.id) return 'true'; }
        if (a.t === 'real' || b.t === 'real') return eq(this.eng.toReal(a), this.eng.toReal(b));
        if (a.t === 'bool' && b.t === 'val') return this.sameBool(b, a); if (b.t === 'bool' && a.t === 'val') return this.sameBool(a, b);
        return eq(this.box(a, st), this.box(b, st));
    }
    sameBool(v, b) { return and([`((_ is VBool) ${v.e})`, eq(`(vb ${v.e})`, b.e)]); }
    host(name, A, st) {
        switch (name) {
            case 'Math.floor': case 'Math.ceil': case 'Math.trunc': return this.eng.mathRound(st, name.slice(5), A[0]);
            case 'Math.abs': return A[0].t === 'int' ? V.int(ite(cmp('<', A[0].e, '0'), `(- ${A[0].e})`, A[0].e)) : A[0].t === 'fp' ? V.fp(`(fp.abs ${A[0].e})`) : E('abs');
            case 'Math.min': case 'Math.max': { const o = name === 'Math.min' ? '<' : '>'; return V.int(A.map(x => this.int(x)).reduce((a, b) => ite(cmp(o, a, b), a, b))); }
            case 'Number.isInteger': case 'Number.isSafeInteger': case 'Number.isNaN': case 'Number.isFinite': {
                const v = A[0]; const nm = name.slice(7);
                if (v.t === 'int') return V.bool(String(nm !== 'isNaN'));
                if (v.t === 'fp') return V.bool(v.c !== undefined ? String(Number[nm](v.c)) : { isNaN: `(fp.isNaN ${v.e})`, isFinite: `(not (or (fp.isNaN ${v.e}) (fp.isInfinite ${v.e})))`, isInteger: this.eng.fpIsInt(v.e), isSafeInteger: and([this.eng.fpIsInt(v.e), `(fp.leq (fp.abs ${v.e}) ${T.fpLit(9007199254740991)})`]) }[nm]);
                if (v.t === 'val' && nm === 'isNaN') return V.bool(`(vnan ${v.e})`);
                if (v.t === 'val') throw Object.assign(new SpecError('kind needed'), { need: v });
                return V.bool('false');
            }
            case 'Object.is': return V.bool(this.eng.sameVal(st, A[0], A[1]));
        }
        return E(name);
    }
    method(o, name, A, st) {
        if (o.t === 'val') o = V.str(`(vs ${o.e})`);
        if (o.t === 'str') switch (name) {
            case 'startsWith': return V.bool(`(str.prefixof ${this.str(A[0])} ${o.e})`);
            case 'endsWith': return V.bool(`(str.suffixof ${this.str(A[0])} ${o.e})`);
            case 'includes': return V.bool(`(str.contains ${o.e} ${this.str(A[0])})`);
            case 'lastIndexOf': return V.int(this.eng.lastIdx(st, o.e, this.str(A[0])));
            case 'indexOf': return V.int(`(str.indexof ${o.e} ${this.str(A[0])} ${A[1] ? this.int(A[1]) : '0'})`);
            case 'charCodeAt': return V.int(this.eng.codeAt(o.e, this.int(A[0])));
            case 'substring': return V.str(`(str.substr ${o.e} ${this.int(A[0])} (- ${A[1] ? this.int(A[1]) : `(str.len ${o.e})`} ${this.int(A[0])}))`);
            case 'slice': return V.str(`(str.substr ${o.e} ${this.int(A[0])} (- ${A[1] ? this.int(A[1]) : `(str.len ${o.e})`} ${this.int(A[0])}))`);
            case 'trim': return V.str(`(strim ${o.e})`); case 'toLowerCase': if (/^"[a-zA-Z0-9 -]*"$/.test(o.e)) return V.str(o.e.toLowerCase()); return V.str(`(slower ${o.e})`); case 'toUpperCase': return V.str(`(supper ${o.e})`);
        }
        return E('method ' + o.t + '.' + name);
    }
    regCall(name, A, st) {
        const r = reg.get(name);
        if (r.macro) return this.apply(parseFn(r.fn), A, null, st);
        const sym = this.recFn(r, st);
        const args = r.params.map((p, i) => p === 'int' ? this.int(A[i]) : p === 'str' ? this.str(A[i]) : p === 'bool' ? this.bool(A[i], st) : p === 'val' ? this.box(A[i], st) : p.startsWith('arr:') ? this.coerce(this.seq(A[i], st), p.slice(4)).arr : E('rec param ' + p));
        const e = `(${sym} ${args.join(' ')})`;
        return { t: r.ret, e };
    }
    fsCall(k, st) { const i = this.int(k); if (!/^\d+$/.test(i)) E('index of a host call'); return st.heap.get('ext').calls[Number(i)]; }
    coerce(q, el) { if (q.el === el) return q; if (q.len === '0') return { ...q, arr: `((as const (Array Int ${sortOf(el)})) ${el === 'int' ? '0' : el === 'str' ? '""' : el === 'bool' ? 'false' : 'VUndef'})` }; return E(`sequence of ${JSON.stringify(q.el)} where ${el} is needed`); }
    recFn(r, st) {
        let sym = this.recs.get(r.name);
        if (sym) return sym;
        sym = `${r.name}!rec`;
        this.recs.set(r.name, sym);
        const node = parseFn(r.fn);
        const ps = r.params.map((p, i) => ({ n: `p${i}`, sort: p.startsWith('arr:') ? `(Array Int ${sortOf(p.slice(4))})` : sortOf(p === 'val' ? 'val' : p) }));
        const args = r.params.map((p, i) => p === 'int' ? V.int(`p${i}`) : p === 'str' ? V.str(`p${i}`) : p === 'bool' ? V.bool(`p${i}`) : p === 'val' ? V.val(`p${i}`) : { t: 'seq', el: p.slice(4), arr: `p${i}`, len: '0' });
        const b = this.apply(node, args, null, { heap: new Map(), pc: [] });
        const body = r.ret === 'bool' ? this.bool(b) : b.e;
        this.eng.solver.declare(`(define-fun-rec ${sym} (${ps.map(p => `(${p.n} ${p.sort})`).join(' ')}) ${sortOf(r.ret)} ${body})`);
        return sym;
    }
}
module.exports = { Spec, SpecError, parseFn };
