'use strict';
const { ts } = require('./loader');
const T = require('./values');
const { V, and, or, not, implies, eq, ite, add, sub, mul, cmp, strLit, isLit, unLit, fpLit, isNumLit, litVal, intLit } = T;
const K = ts.SyntaxKind;

module.exports = function (Engine) {
    const { Unsupported } = require('./engine');
    const P = Engine.prototype;
    const U = (m, n) => { throw new Unsupported(m, n); };

    // ---------------- expressions
    P.ev = function (n, st) {
        switch (n.kind) {
            case K.ParenthesizedExpression: case K.AsExpression: case K.NonNullExpression: case K.SatisfiesExpression: case K.TypeAssertionExpression:
                return this.ev(n.expression, st);
            case K.NumericLiteral: return this.one(st, V.num(Number(n.text)));
            case K.BigIntLiteral: return this.one(st, V.big(String(BigInt(n.text.replace(/n$/, '')))));
            case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: return this.one(st, V.lit(n.text));
            case K.RegularExpressionLiteral: return this.one(st, { t: 'regex', src: n.text, sticky: false });
            case K.TrueKeyword: return this.one(st, V.bool('true'));
            case K.FalseKeyword: return this.one(st, V.bool('false'));
            case K.NullKeyword: return this.one(st, V.nul);
            case K.ThisKeyword: return this.readVar('this', st, n);
            case K.Identifier: return this.readVar(n.text, st, n);
            case K.TemplateExpression: return this.evTemplate(n, st);
            case K.ArrayLiteralExpression: return this.bind(this.evArgs(n.elements, st), (st, args) => this.one(st, this.arrayFromArgs(st, args)));
            case K.ObjectLiteralExpression: return this.evObject(n, st);
            case K.FunctionExpression: case K.ArrowFunction: return this.one(st, this.closure(st, n, st.frame));
            case K.ConditionalExpression:
                return this.bind(this.evCond(n.condition, st), (st, b) => this.ev(b ? n.whenTrue : n.whenFalse, st));
            case K.PrefixUnaryExpression: return this.evPrefix(n, st);
            case K.PostfixUnaryExpression: return this.evIncDec(n, st, n.operator === K.PlusPlusToken ? '1' : '-1', true);
            case K.VoidExpression: return this.bind(this.ev(n.expression, st), st => this.one(st, V.undef));
            case K.TypeOfExpression: {
                if (ts.isIdentifier(n.expression) && !this.isBound(n.expression.text, st)) { const h = this.hostTypeof(n.expression.text); if (h !== null) return this.one(st, V.lit(h)); }
                return this.bind(this.ev(n.expression, st), (st, v) => this.bind(this.refine(st, v), (st, v) => this.one(st, V.lit(this.typeOf(st, v)))));
            }
            case K.DeleteExpression: return this.evDelete(n, st);
            case K.AwaitExpression: return this.bind(this.ev(n.expression, st), (st, v) => this.awaitVal(st, v));
            case K.BinaryExpression: return this.evBinary(n, st);
            case K.PropertyAccessExpression: case K.ElementAccessExpression: return this.chain(n, st, (st, v) => this.one(st, v.v));
            case K.CallExpression: return this.chain(n, st, (st, v) => this.one(st, v.v));
            case K.NewExpression: return this.evNew(n, st);
            case K.SpreadElement: U('spread', n);
        }
        U('expression ' + K[n.kind], n);
    };
    P.isBound = function (name, st) {
        if (this.findVar(st, name)) return true;
        const m = this.modOf(st);
        return !!(m && this.loader.findLocal(m, name));
    };
    P.hostTypeof = function (name) {
        const o = { process: 'object', queueMicrotask: 'function', window: 'undefined', document: 'undefined', Buffer: 'function', setTimeout: 'function', Symbol: 'function', WeakRef: 'function', globalThis: 'object' };
        return name in o ? o[name] : null;
    };
    P.readVar = function (name, st, n) {
        if (name === 'undefined') return this.one(st, V.undef);
        const f = this.findVar(st, name);
        if (f) {
            const v = st.heap.get(f).vars[name];
            if (v && v.t === 'tdz') return this.throwErr(st, 'ReferenceError');
            return this.deref(st, v);
        }
        if (name === 'NaN') return this.one(st, V.num(NaN));
        if (name === 'Infinity') return this.one(st, V.num(Infinity));
        const m = this.modOf(st);
        const r = m && this.loader.findLocal(m, name);
        if (r) return this.global(r, st, n);
        if (this.isHostGlobal(name)) return this.one(st, { t: 'bi', name });
        U('unresolved name ' + name, n);
    };
    P.globalKey = function (r) { return r.mod.file.slice(require('./loader').REPO.length + 1) + '#' + r.name; };
    P.global = function (r, st, n) {
        if (r.ext) return this.one(st, { t: 'bi', name: r.ext + '.' + r.name });
        if (r.ns) return this.one(st, { t: 'ns', mod: r.mod });
        const key = this.globalKey(r);
        if (this.abstractKeys && this.abstractKeys.has(key)) { this.abstractKeys.set(key, r); return this.one(st, { t: 'bi', name: 'abstract:' + key }); }
        if (this.trusted[key]) return this.one(st, { t: 'bi', name: 'trusted:' + key });
        const hk = 'g:' + key;
        if (st.heap.has(hk)) return this.one(st, st.heap.get(hk));
        const node = r.node, fr = this.modFrame(st, r.mod);
        if (ts.isFunctionDeclaration(node)) { const v = this.closure(st, node, fr, key); st.heap.set(hk, v); return this.one(st, v); }
        let init = node;
        if (ts.isVariableDeclaration(node)) init = node.initializer;
        else if (ts.isClassDeclaration(node)) U('class ' + r.name, n);
        else if (ts.isEnumDeclaration(node)) return this.one(st, this.enumRec(st, node));
        if (!init) U('global without initialiser ' + r.name, n);
        // evaluate module constants in the module frame
        const saved = st.frame, savedStack = st.stack;
        st.frame = fr;
        const outs = this.ev(init, st);
        if ((outs.length !== 1 || outs[0].thrown || outs[0].unsup) && ts.isVariableDeclaration(node) && ts.isIdentifier(node.name)) {
            const got = this.runConst(r);
            if (got) { st.frame = saved; st.stack = savedStack; st.heap.set(hk, got); return this.one(st, got); }
        }
        if (outs.length !== 1 || outs[0].thrown || outs[0].unsup) U('module constant ' + r.name + (outs[0] && outs[0].unsup ? ': ' + outs[0].unsup : ''), n);
        const o = outs[0];
        o.st.frame = saved; o.st.stack = savedStack;
        let v = o.v;
        if (ts.isVariableDeclaration(node) && !ts.isIdentifier(node.name)) {
            o.st.frame = fr;
            const bo = this.bindPattern(node.name, v, o.st);
            if (bo.length !== 1 || bo[0].thrown || bo[0].unsup) U('module pattern', n);
            bo[0].st.frame = saved;
            return this.one(bo[0].st, bo[0].st.heap.get(fr).vars[r.name]);
        }
        if (v.t === 'ref') { const c = this.cell(o.st, v); if (c.k === 'clo' && !c.key) o.st.heap.set(v.id, { ...c, key }); }
        o.st.heap.set(hk, v);
        return this.one(o.st, v);
    };
    // a text or pattern at module level, read from the module as it really runs
    P.runConst = function (r) {
        const file = r.mod.file.slice(require('./loader').REPO.length + 1), names = [];
        for (const s of r.mod.sf.statements) if (ts.isVariableStatement(s) && s.declarationList.flags & ts.NodeFlags.Const) for (const d of s.declarationList.declarations) if (ts.isIdentifier(d.name)) names.push(d.name.text);
        const g = names.includes(r.name) && require('./consts').constants(file, names)[r.name];
        if (!g) return null;
        this.assumptions.add(`module constant ${r.name} of ${file} (a text or pattern) read by running its module`);
        return g.re ? { t: 'regex', src: g.re } : V.lit(g.str);
    };
    P.enumRec = function (st, node) {
        let next = 0; const fields = {};
        for (const m of node.members) { if (m.initializer) { if (ts.isNumericLiteral(m.initializer)) next = Number(m.initializer.text); else if (ts.isStringLiteral(m.initializer)) { fields[m.name.text] = V.lit(m.initializer.text); continue; } else U('enum', node); } fields[m.name.text] = V.num(next++); }
        return this.alloc(st, { k: 'rec', fields });
    };
    P.closure = function (st, node, frame, key) {
        return this.alloc(st, { k: 'clo', node, frame, key, props: {}, async: !!(ts.getCombinedModifierFlags(node) & ts.ModifierFlags.Async) || !!(node.modifiers && node.modifiers.some(m => m.kind === K.AsyncKeyword)) });
    };
    P.evCond = function (n, st) { // -> outcomes with boolean JS v
        while (n.kind === K.ParenthesizedExpression) n = n.expression;
        if (n.kind === K.PrefixUnaryExpression && n.operator === K.ExclamationToken) return this.bind(this.evCond(n.operand, st), (st, b) => this.one(st, !b));
        if (n.kind === K.BinaryExpression) {
            const op = n.operatorToken.kind;
            if (op === K.AmpersandAmpersandToken) return this.bind(this.evCond(n.left, st), (st, b) => b ? this.evCond(n.right, st) : this.one(st, false));
            if (op === K.BarBarToken) return this.bind(this.evCond(n.left, st), (st, b) => b ? this.one(st, true) : this.evCond(n.right, st));
        }
        return this.bind(this.ev(n, st), (st, v) => this.bind(this.deref(st, v), (st, v) => this.fork(st, this.truthy(st, v)).map(({ st, b }) => ({ st, v: b }))));
    };
    P.evArgs = function (nodes, st) { // -> v: [{v}|{spread}]
        let outs = this.one(st, []);
        for (const a of nodes) {
            outs = this.bind(outs, (st, acc) => {
                if (a.kind === K.OmittedExpression) return this.one(st, [...acc, { v: V.undef }]);
                const sp = ts.isSpreadElement(a);
                return this.bind(this.ev(sp ? a.expression : a, st), (st, v) => {
                    if (!sp) return this.one(st, [...acc, { v }]);
                    return this.bind(this.toSpread(st, v), (st, items) => this.one(st, [...acc, ...items]));
                });
            });
        }
        return outs;
    };
    P.toSpread = function (st, v) {
        return this.bind(this.refine(st, v), (st, v) => {
            if (v.t === 'ref') {
                const c = this.cell(st, v);
                if (c.k === 'tup') return this.one(st, c.items.map(x => ({ v: x })));
                if (c.k === 'arr') { if (isNumLit(c.len) && litVal(c.len) <= 8n) { const r = []; for (let i = 0; i < Number(litVal(c.len)); i++) r.push({ v: this.fromElem(st, `(select ${c.arr} ${i})`, c.el) }); return this.one(st, r); } return this.one(st, [{ spread: { ...c } }]); }
                if (c.k === 'set') return this.bind(this.callBuiltin('Array.from', V.undef, [{ v }], st), (st, a) => this.toSpread(st, a));
            }
            U('spread of ' + v.t);
        });
    };
    P.arrayFromArgs = function (st, args) {
        if (args.every(a => a.v)) return this.alloc(st, { k: 'tup', items: args.map(a => a.v) });
        let acc = null;
        const seg = items => { const t = this.alloc(st, { k: 'tup', items }); return this.asArr(st, t, this.joinItems(st, items) || undefined); };
        let run = [];
        const flush = () => { if (run.length) { const s = { el: null, ...seg(run) }; acc = acc ? this.concatArr(st, acc, s) : s; run = []; } };
        for (const a of args) { if (a.v) run.push(a.v); else { if (run.length && typeof a.spread.el === 'string' && this.joinItems(st, run) !== a.spread.el) { const t = this.alloc(st, { k: 'tup', items: run }); const s = this.asArr(st, t, 'val'); acc = acc ? this.concatArr(st, this.toElArr(st, acc, 'val'), s) : s; run = []; } flush(); acc = acc ? this.concatArr2(st, acc, a.spread) : a.spread; } }
        if (run.length) { const t = this.alloc(st, { k: 'tup', items: run }); const s = this.asArr(st, t, acc && typeof acc.el === 'string' && this.joinItems(st, run) !== acc.el ? 'val' : undefined); acc = acc ? this.concatArr2(st, acc, s) : s; }
        return this.alloc(st, { k: 'arr', el: acc.el, arr: acc.arr, len: acc.len });
    };
    P.toElArr = function (st, a, el) { if (typeof a.el === 'object' || a.el === el) return a; const t = this.alloc(st, { k: 'arr', ...a }); return this.asArr(st, t, el); };
    P.concatArr2 = function (st, a, b) { if (JSON.stringify(a.el) !== JSON.stringify(b.el)) { if (a.len === '0') return b; if (b.len === '0') return a; a = this.toElArr(st, a, 'val'); b = this.toElArr(st, b, 'val'); } return this.concatArr(st, a, b); };
    P.evTemplate = function (n, st) {
        let outs = this.one(st, [strLit(n.head.text)]);
        for (const s of n.templateSpans) {
            outs = this.bind(outs, (st, acc) => this.bind(this.ev(s.expression, st), (st, v) => this.bind(this.toStr(st, v), (st, x) => this.one(st, [...acc, x.e, strLit(s.literal.text)]))));
        }
        return this.bind(outs, (st, parts) => this.one(st, V.str(this.concatStr(parts))));
    };
    P.concatStr = function (parts) {
        parts = parts.filter(p => p !== '""').reduce((o, p) => { const z = o[o.length - 1]; if (z !== undefined && isLit(z) && isLit(p)) o[o.length - 1] = z.slice(0, -1) + p.slice(1); else o.push(p); return o; }, []);
        if (!parts.length) return '""';
        return parts.length === 1 ? parts[0] : `(str.++ ${parts.join(' ')})`;
    };
    // String(v); opaque values keep an uninterpreted but functional rendering
    P.toStr = function (st, v) {
        return this.bind(this.deref(st, v), (st, v) => {
            switch (v.t) {
                case 'str': return this.one(st, v);
                case 'int': if (isNumLit(v.e)) return this.one(st, V.lit(String(litVal(v.e)))); return this.one(st, V.str(`(num2str ${v.e})`));
                case 'fp': if (v.c !== undefined) return this.one(st, V.lit(String(v.c))); return this.one(st, V.str(`(val2str ${this.box(v, st)})`));
                case 'undef': return this.one(st, V.lit('undefined'));
                case 'null': return this.one(st, V.lit('null'));
                case 'bool': return this.one(st, V.str(v.e === 'true' ? '"true"' : v.e === 'false' ? '"false"' : `(ite ${v.e} "true" "false")`));
                case 'val': this.opaque(); return this.one(st, V.str(`(val2str ${v.e})`));
                case 'sym': return this.throwErr(st, 'TypeError');
                case 'real': return this.one(st, V.str(this.decl('rstr', 'String')));
                default: return this.one(st, V.str(this.decl('tostr', 'String')));
            }
        });
    };
    P.propName = function (n, st) { // -> outs with {name} or {key}
        if (ts.isIdentifier(n) || ts.isPrivateIdentifier(n)) return this.one(st, { name: n.text });
        if (ts.isStringLiteral(n) || ts.isNumericLiteral(n)) return this.one(st, { name: n.text });
        if (ts.isComputedPropertyName(n)) return this.bind(this.ev(n.expression, st), (st, v) => this.one(st, this.keyOf(v)));
        U('property name', n);
    };
    P.keyOf = function (v) {
        if (v.t === 'str' && /^"([^"\\]|"")*"$/.test(v.e)) return { name: v.e.slice(1, -1).replace(/""/g, '"') };
        if (v.t === 'int' && isNumLit(v.e)) return { name: String(litVal(v.e)), key: v };
        return { key: v };
    };
    P.evObject = function (n, st) {
        let outs = this.one(st, { fields: {}, getters: {} });
        for (const p of n.properties) {
            outs = this.bind(outs, (st, acc) => {
                if (ts.isSpreadAssignment(p)) {
                    return this.bind(this.ev(p.expression, st), (st, v) => {
                        if (v.t === 'undef' || v.t === 'null') return this.one(st, acc);
                        if (v.t === 'ref') { const c = this.cell(st, v); if (c.k === 'rec') return this.one(st, { ...acc, fields: { ...acc.fields, ...c.fields } }); }
                        U('object spread of ' + v.t, p);
                    });
                }
                if (ts.isShorthandPropertyAssignment(p)) return this.bind(this.readVar(p.name.text, st, p), (st, v) => this.one(st, { ...acc, fields: { ...acc.fields, [p.name.text]: v } }));
                return this.bind(this.propName(p.name, st), (st, k) => {
                    if (k.name === undefined) U('computed property name', p);
                    if (ts.isPropertyAssignment(p)) return this.bind(this.ev(p.initializer, st), (st, v) => this.one(st, { ...acc, fields: { ...acc.fields, [k.name]: v } }));
                    if (ts.isMethodDeclaration(p)) return this.one(st, { ...acc, fields: { ...acc.fields, [k.name]: this.closure(st, p, st.frame) } });
                    if (ts.isGetAccessor(p)) return this.one(st, { ...acc, getters: { ...acc.getters, [k.name]: this.closure(st, p, st.frame) } });
                    U('object member', p);
                });
            });
        }
        return this.bind(outs, (st, { fields, getters }) => this.one(st, this.alloc(st, { k: 'rec', fields, getters })));
    };
    P.evPrefix = function (n, st) {
        switch (n.operator) {
            case K.ExclamationToken: return this.bind(this.evCondTerm(n.operand, st), (st, t) => this.one(st, V.bool(not(t))));
            case K.PlusPlusToken: return this.evIncDec(n, st, '1', false);
            case K.MinusMinusToken: return this.evIncDec(n, st, '-1', false);
            case K.MinusToken: return this.bind(this.ev(n.operand, st), (st, v) => this.bind(this.refine(st, v), (st, v) => {
                if (v.t === 'int') return this.one(st, isNumLit(v.e) && litVal(v.e) === 0n ? V.num(-0) : V.int(isNumLit(v.e) ? intLit(-litVal(v.e)) : `(- ${v.e})`));
                if (v.t === 'fp') return this.one(st, v.c !== undefined ? V.num(-v.c) : V.fp(`(fp.neg ${v.e})`));
                if (v.t === 'real') return this.one(st, V.real(`(- ${v.e})`));
                if (v.t === 'big') return this.one(st, V.big(`(- ${v.e})`));
                U('unary minus on ' + v.t, n);
            }));
            case K.PlusToken: return this.bind(this.ev(n.operand, st), (st, v) => this.toNumber(st, v));
            case K.TildeToken: return this.bind(this.ev(n.operand, st), (st, v) => { if (v.t === 'int') return this.one(st, V.int(sub(intLit(-1), v.e))); U('~', n); });
        }
        U('prefix operator', n);
    };
    P.evCondTerm = function (n, st) { // truthiness as a term, without forking when possible
        return this.bind(this.ev(n, st), (st, v) => this.bind(this.deref(st, v), (st, v) => this.one(st, this.truthy(st, v))));
    };
    P.evIncDec = function (n, st, d, post) {
        if (d === '-1') d = '(- 1)';
        return this.evRef(n.operand, st, (st, ref) => this.bind(this.refGet(st, ref), (st, v) => this.bind(this.refine(st, v), (st, v) => {
            let nv;
            if (v.t === 'int') nv = V.int(add(v.e, d));
            else if (v.t === 'fp') nv = V.fp(`(fp.add RNE ${v.e} ${fpLit(d === '1' ? 1 : -1)})`);
            else U('++ on ' + v.t, n);
            return this.bind(this.refSet(st, ref, nv), st => this.one(st, post ? v : nv));
        })));
    };
    // ---------------- references (assignment targets)
    P.evRef = function (n, st, f) {
        while ([K.ParenthesizedExpression, K.AsExpression, K.NonNullExpression, K.TypeAssertionExpression].includes(n.kind)) n = n.expression;
        if (ts.isIdentifier(n)) return f(st, { name: n.text, node: n });
        if (ts.isPropertyAccessExpression(n)) return this.bind(this.ev(n.expression, st), (st, o) => this.bind(this.refine(st, o), (st, o) => f(st, { obj: o, key: { name: n.name.text }, node: n })));
        if (ts.isElementAccessExpression(n)) return this.bind(this.ev(n.expression, st), (st, o) => this.bind(this.refine(st, o), (st, o) => this.bind(this.ev(n.argumentExpression, st), (st, k) => f(st, { obj: o, key: this.keyOf(k), node: n }))));
        U('assignment target', n);
    };
    P.refGet = function (st, r) { if (r.name) return this.readVar(r.name, st, r.node); return this.getProp(st, r.obj, r.key, r.node); };
    P.refSet = function (st, r, v) {
        if (r.name) {
            const f = this.findVar(st, r.name);
            if (!f) { const m = this.modOf(st); if (m && this.loader.findLocal(m, r.name)) U('assignment to module variable ' + r.name, r.node); U('assignment to ' + r.name, r.node); }
            this.setVarIn(st, f, r.name, v);
            return this.one(st, v);
        }
        return this.setProp(st, r.obj, r.key, v, r.node);
    };
    P.setProp = function (st, o, key, v, n) {
        if (o.t === 'ref') {
            const c = this.cell(st, o);
            if (c.k === 'arr' || c.k === 'tup') {
                if (key.key && key.key.t === 'int') return this.setIndex(st, o, key.key, v);
                if (key.name !== undefined && /^\d+$/.test(key.name)) return this.setIndex(st, o, V.int(key.name), v);
                if (key.name === 'length') return this.setLength(st, o, v, n);
            }
            if (c.k === 'rec' && key.name !== undefined) { st.heap.set(o.id, { ...c, fields: { ...c.fields, [key.name]: v } }); return this.one(st, v); }
            if (c.k === 'clo' && key.name !== undefined) { st.heap.set(o.id, { ...c, props: { ...c.props, [key.name]: v } }); return this.one(st, v); }
            if ((c.k === 'rec' || c.k === 'dict')) return this.dictSet(st, o, key, v, n);
            if (c.k === 'err' && key.name !== undefined) { st.heap.set(o.id, { ...c, fields: { ...c.fields, [key.name]: v } }); return this.one(st, v); }
        }
        if (o.t === 'undef' || o.t === 'null') return this.throwErr(st, 'TypeError');
        if (o.t === 'regex' && key.name === 'lastIndex') { return this.one(st, v); }
        U(`property write ${o.t}${key.name !== undefined ? '.' + key.name : '[..]'}`, n);
    };
    P.dictSet = function (st, o, key, v, n) { U('dictionary write', n); };
    P.setLength = function (st, o, v, n) {
        const c = this.cell(st, o); this.chkMut(c);
        if (v.t !== 'int') U('length write', n);
        if (c.k === 'tup' && isNumLit(v.e) && Number(litVal(v.e)) <= c.items.length) { st.heap.set(o.id, { ...c, items: c.items.slice(0, Number(litVal(v.e))) }); return this.one(st, v); }
        const a = this.asArr(st, o);
        if (v.e === '0' ) { st.heap.set(o.id, c.k === 'tup' ? { ...c, items: [] } : { ...a, len: '0', cat: undefined }); return this.one(st, v); }
        if (!this.valid(st, and([cmp('<=', '0', v.e), cmp('<=', v.e, a.len)]))) U('length write that may grow', n);
        st.heap.set(o.id, { ...c, ...a, k: 'arr', len: v.e, items: undefined, cat: undefined });
        return this.one(st, v);
    };
    P.evDelete = function (n, st) { U('delete', n); };
    // ---------------- member chains and calls (with optional chaining)
    // f receives {v, thisv}; undefined-short-circuit handled by throwing to the chain root
    P.chain = function (n, st, f) {
        const SC = { t: 'undef', sc: true };
        const go = (n, st) => { // -> outs with {v, thisv} ; {sc:true}
            while ([K.ParenthesizedExpression, K.AsExpression, K.NonNullExpression, K.TypeAssertionExpression].includes(n.kind)) {
                if (n.kind === K.ParenthesizedExpression) { if ([K.PropertyAccessExpression, K.ElementAccessExpression].includes(n.expression.kind)) { n = n.expression; continue; } return this.bind(this.ev(n.expression, st), (st, v) => this.one(st, { v })); }
                n = n.expression;
            }
            if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
                return this.bind(go(n.expression, st), (st, o) => {
                    if (o.sc) return this.one(st, o);
                    return this.bind(this.refineForAccess(st, o.v), (st, ov) => {
                        if (n.questionDotToken && (ov.t === 'undef' || ov.t === 'null')) return this.one(st, { sc: true, v: V.undef });
                        if (ts.isPropertyAccessExpression(n)) return this.bind(this.getProp(st, ov, { name: n.name.text }, n), (st, v) => this.one(st, { v, thisv: ov }));
                        return this.bind(this.ev(n.argumentExpression, st), (st, k) => this.bind(this.deref(st, k), (st, k) => this.bind(this.getProp(st, ov, this.keyOf(k), n), (st, v) => this.one(st, { v, thisv: ov }))));
                    });
                });
            }
            if (ts.isCallExpression(n)) {
                return this.bind(go(n.expression, st), (st, c) => {
                    if (c.sc) return this.one(st, c);
                    return this.bind(this.deref(st, c.v), (st, fv) => {
                        if (n.questionDotToken && (fv.t === 'undef' || fv.t === 'null')) return this.one(st, { sc: true, v: V.undef });
                        return this.bind(this.evArgs(n.arguments, st), (st, args) => this.bind(this.call(st, fv, c.thisv || V.undef, args, n), (st, v) => this.one(st, { v })));
                    });
                });
            }
            return this.bind(this.ev(n, st), (st, v) => this.one(st, { v }));
        };
        return this.bind(go(n, st), (st, r) => f(st, r));
    };
    P.refineForAccess = function (st, v) { return this.bind(this.deref(st, v), (st, v) => v.t === 'val' ? this.refine(st, v) : this.one(st, v)); };
    P.getProp = function (st, o, key, n) {
        const name = key.name;
        switch (o.t) {
            case 'undef': case 'null': return this.throwErr(st, 'TypeError');
            case 'ns': { const r = this.loader.findExport(o.mod.file, name); if (!r) U('namespace member ' + name, n); return this.global(r, st, n); }
            case 'bi': return this.biProp(st, o, name, n);
            case 'str':
                if (name === 'length') return this.one(st, V.int(this.strLen(o.e)));
                if (key.key && key.key.t === 'int' || (name !== undefined && /^\d+$/.test(name))) {
                    const i = key.key ? key.key.e : name;
                    return this.fork(st, and([cmp('<=', '0', i), cmp('<', i, this.strLen(o.e))])).flatMap(({ st, b }) => this.one(st, b ? { ...V.str(`(str.at ${o.e} ${i})`), at: { s: o.e, i } } : V.undef));
                }
                if (name !== undefined) return this.one(st, name in String.prototype ? { t: 'bm', recv: o, name } : V.undef);
                if (key.key && key.key.wk) return this.one(st, Symbol[key.key.wk] in String.prototype ? { t: 'bm', recv: o, name: 'Symbol.' + key.key.wk } : V.undef);
                if (key.key && ['str', 'sym'].includes(key.key.t)) return this.deref(st, V.val(`(oprop ${this.box(o, st)} ${this.keyTerm(st, key)})`));
                U('string property', n); break;
            case 'ref': return this.refProp(st, o, key, n);
            case 'val': return this.bind(this.refine(st, o), (st, o) => this.getProp(st, o, key, n));
            case 'obj': case 'ofn': {
                if (['hasOwnProperty', 'valueOf', 'toUTCString'].includes(name) && o.t === 'obj') return this.one(st, { t: 'bm', recv: o, name });
                if (name === 'hasOwnProperty') return this.one(st, { t: 'bm', recv: o, name });
                if (name === 'length' && o.t === 'obj' && this.valid(st, eq(`(otag ${o.e})`, '"String"'))) { // a String object
                    const s = `(oprop ${o.e} (VStr "%valueOf"))`; st.assume(`((_ is VStr) ${s})`); this.assumptions.add('an object tagged String is a String object'); return this.one(st, V.int(`(str.len (vs ${s}))`));
                }
                const ke = this.keyTerm(st, key);
                return this.deref(st, V.val(`(oprop ${o.e} ${ke})`));
            }
            case 'prom': if (name !== undefined) return this.one(st, { t: 'bm', recv: o, name }); break;
            case 'regex': if (name === 'source') return this.one(st, V.lit(o.src.replace(/^\/(.*)\/[a-z]*$/s, '$1'))); return this.one(st, { t: 'bm', recv: o, name });
            case 'int': case 'fp': case 'bool': case 'big': case 'sym': case 'real':
                if (name !== undefined) {
                    if (['length', 'size', 'then', 'constructor', 'prototype'].includes(name) && name !== 'constructor') return this.one(st, V.undef);
                    const proto = { int: Number, fp: Number, real: Number, bool: Boolean, big: BigInt, sym: Symbol }[o.t].prototype;
                    return this.one(st, name in proto ? { t: 'bm', recv: o, name } : V.undef);
                }
                if (key.key && key.key.wk && o.t !== 'sym') return this.one(st, V.undef);
                if (key.key && key.key.wk && ['iterator', 'asyncIterator'].includes(key.key.wk)) return this.one(st, V.undef);
                if (key.key && ['str', 'sym'].includes(key.key.t) && o.t !== 'real') return this.deref(st, V.val(`(oprop ${this.box(o, st)} ${this.keyTerm(st, key)})`));
                return this.one(st, V.undef);
            case 'bm': return this.one(st, { t: 'bm', recv: o, name });
        }
        U(`property read ${o.t}.${name}`, n);
    };
    P.keyTerm = function (st, key) {
        const k = key.key; if (!k || key.name !== undefined) return `(VStr ${strLit(key.name)})`;
        if (k.t === 'int') return `(VStr (num2str ${k.e}))`;
        if (k.t === 'undef') return '(VStr "undefined")'; if (k.t === 'null') return '(VStr "null")'; if (k.t === 'bool') return `(VStr (ite ${k.e} "true" "false"))`;
        if (k.t === 'str' || k.t === 'sym') return this.box(k, st);
        if (k.t === 'val' && this.solver.check([...st.pc, not(or([`((_ is VStr) ${k.e})`, `((_ is VSym) ${k.e})`]))], { timeout: 2000, rlimit: 1000000 }) === 'unsat') return k.e;
        U('property key of kind ' + k.t);
    };
    P.strLen = function (e) {
        if (e === undefined) throw Object.assign(new Error('no string here'), { spec: true });
        if (/^"(?:[^"]|"")*"$/.test(e)) return String(e.slice(1, -1).replace(/""/g, '"').replace(/\\u\{[0-9a-f]+\}/g, 'x').length);
        return `(str.len ${e})`;
    };
    P.refProp = function (st, o, key, n) {
        const c = this.cell(st, o), name = key.name;
        switch (c.k) {
            case 'arr': case 'tup':
                if (name === 'length') return this.one(st, V.int(this.arrLen(st, o)));
                if (key.key && key.key.t === 'int') return this.getIndex(st, o, key.key);
                if (name !== undefined && /^\d+$/.test(name)) return this.getIndex(st, o, V.int(name));
                if (key.key && key.key.wk === 'iterator') return this.one(st, { t: 'bm', recv: o, name: 'Symbol.iterator' });
                if (key.key) { if (key.key.t === 'undef') return this.one(st, V.undef); if (key.key.t === 'fp') return this.one(st, V.undef); if (c.boxed && ['str', 'sym'].includes(key.key.t)) return this.deref(st, V.val(`(oprop ${c.boxed} ${this.keyTerm(st, key)})`)); U('array index of kind ' + key.key.t, n); }
                if (c.props && Object.prototype.hasOwnProperty.call(c.props, name)) return this.one(st, c.props[name]);
                if (!(name in Array.prototype)) return c.boxed ? this.deref(st, V.val(`(oprop ${c.boxed} (VStr ${strLit(name)}))`)) : this.one(st, V.undef);
                return this.one(st, { t: 'bm', recv: o, name });
            case 'rec':
                if (name === undefined && key.key && (key.key.t === 'undef' || key.key.t === 'null')) return this.refProp(st, o, { ...key, key: undefined, name: key.key.t === 'undef' ? 'undefined' : 'null' }, n);
                if (name !== undefined) {
                    if (c.getters && c.getters[name]) return this.call(st, c.getters[name], o, [], n);
                    if (Object.prototype.hasOwnProperty.call(c.fields, name)) return this.deref(st, c.fields[name]);
                    if (['hasOwnProperty', 'toString'].includes(name)) return this.one(st, { t: 'bm', recv: o, name });
                    if (name === 'constructor') return this.one(st, { t: 'bi', name: 'Object' });
                    return this.one(st, V.undef);
                }
                if (key.key && key.key.t === 'str' && !(c.getters && Object.keys(c.getters).length) && Object.keys(c.fields).length > 4 && Object.values(c.fields).every(x => ['str', 'int', 'bool', 'undef', 'null'].includes(x.t))) { // a constant table
                    this.assumptions.add('plain-record lookups with other keys yield undefined (keys naming Object.prototype members are excluded)');
                    this._tbl = this._tbl || new Map();
                    const body = Object.keys(c.fields).reduceRight((acc, f) => ite(eq('p0', strLit(f)), this.box(c.fields[f], st), acc), 'VUndef');
                    if (!/!\d/.test(body)) {
                        if (!this._tbl.has(body)) { const nm = 'tbl!' + this._tbl.size; this._tbl.set(body, nm); this.solver.declare(`(define-fun ${nm} ((p0 String)) Val ${body})`); }
                        return this.one(st, V.val(`(${this._tbl.get(body)} ${key.key.e})`));
                    }
                }
                if (key.key && key.key.t === 'str') { // finite case split over the known fields
                    const r = []; const neqs = [];
                    for (const f of Object.keys(c.fields)) { const q = eq(key.key.e, strLit(f)); neqs.push(not(q)); if (this.feasible(st, [q])) r.push(...this.deref(st.clone().assume(q), c.fields[f])); }
                    const nn = and(neqs); if (this.feasible(st, [nn])) { this.assumptions.add('plain-record lookups with other keys yield undefined (keys naming Object.prototype members are excluded)'); r.push(...this.one(st.clone().assume(nn), V.undef)); }
                    return r;
                }
                U('dynamic record key', n); break;
            case 'dict': return this.dictGet(st, o, key, n);
            case 'clo': case 'cb': case 'resolver':
                if (c.props && Object.prototype.hasOwnProperty.call(c.props, name)) return this.one(st, c.props[name]);
                if (name === 'length' ) { if (c.k === 'clo') { let k = 0; for (const p of c.node.parameters) { if (p.initializer || p.dotDotDotToken) break; if (ts.isIdentifier(p.name) && p.name.text === 'this') continue; k++; } return this.one(st, V.int(String(k))); } return this.one(st, V.int(String(c.arity === undefined ? this.declNat(st, 'arity') : c.arity))); }
                if (name === 'prototype' || name === 'then') return this.one(st, V.undef);
                if (c.k === 'clo' && c.key) { const m = this.staticMember(c.key, name); if (m) return this.bind(this.evIn(st, 'mod:' + m.mod.file, m.mod, m.init), (st, v) => this.one(st, v)); }
                return this.one(st, { t: 'bm', recv: o, name });
            case 'err':
                if (name === 'name') return this.one(st, V.lit(c.name));
                if (Object.prototype.hasOwnProperty.call(c.fields, name)) return this.deref(st, c.fields[name]);
                return this.one(st, V.undef);
            case 'set': case 'map':
                if (name === 'size') return this.one(st, V.int(c.size));
                return this.one(st, { t: 'bm', recv: o, name });
            case 'wrap': case 'date': return this.one(st, { t: 'bm', recv: o, name });
        }
        U(`property read ${c.k}.${name}`, n);
    };
    P.declNat = function (st, p) { const n = this.decl(p, 'Int'); st.assume(cmp('<=', '0', n)); return n; };
    // `f.member = init` statements at module level (e.g. memoizeWith.cacheInitializer = Map)
    P.staticMember = function (key, name) {
        const [file, fn] = key.split('#');
        const mod = this.loader.load(require('path').join(require('./loader').REPO, file));
        for (const s of mod.sf.statements) {
            if (ts.isExpressionStatement(s) && ts.isBinaryExpression(s.expression) && s.expression.operatorToken.kind === K.EqualsToken && ts.isPropertyAccessExpression(s.expression.left) && ts.isIdentifier(s.expression.left.expression) && s.expression.left.expression.text === fn && s.expression.left.name.text === name) return { mod, init: s.expression.right };
        }
        return null;
    };
    P.evIn = function (st, fr, mod, node) {
        const saved = st.frame; this.modFrame(st, mod); st.frame = fr;
        return this.bind(this.ev(node, st), (s, v) => { s.frame = saved; return this.one(s, v); });
    };
    // ---------------- calls
    P.call = function (st, fv, thisv, args, n) {
        this.tick();
        switch (fv.t) {
            case 'bi': return this.callBuiltin(fv.name, thisv, args, st, n);
            case 'bm': return this.callMethod(fv, args, st, n);
            case 'bound': return this.call(st, fv.fn, fv.thisv, [...fv.args, ...args], n);
            case 'ref': {
                const c = this.cell(st, fv);
                if (c.k === 'clo') return this.callClosure(st, fv, c, thisv, args, n);
                if (c.k === 'cb') return this.callCb(st, fv, c, thisv, args, n);
                if (c.k === 'resolver') return this.callResolver(st, c, args);
                return this.throwErr(st, 'TypeError');
            }
            case 'undef': case 'null': case 'int': case 'bool': case 'str': case 'fp': case 'big': case 'sym': case 'real': case 'prom': case 'regex': return this.throwErr(st, 'TypeError');
            case 'val': return this.bind(this.refine(st, fv), (st, fv) => this.call(st, fv, thisv, args, n));
            case 'ofn': return this.callOpaque(st, fv, thisv, args, n);
            case 'obj': return this.throwErr(st, 'TypeError');
        }
        U('call of ' + fv.t, n);
    };
    P.callClosure = function (st, fv, c, thisv, args, n) {
        if (c.key) {
            const s = this.summaries.get(c.key);
            if (s && !(this.current && this.current.key === c.key && !this.recursing)) { this.called.add(c.key); return this.callContract(st, s, args, n); }
            if (this.current && this.current.key === c.key && this.depthOf(st, c.node) > 0) {
                if (this.current.recursive) return this.callContract(st, this.current, args, n);
            }
            this.inlined.add(c.key);
        }
        if (this.depthOf(st, c.node) > (this.opts.maxRec || 3)) U('recursion without a contract', n);
        return this.inline(st, { ...c, self: fv }, thisv, args, n);
    };
    // modular call: the callee's contract stands for its body
    P.callContract = function (st, c, args, n) {
        const names = Object.keys(c.params || {}), spec = this.spec;
        let outs = this.one(st, []);
        names.forEach((nm, i) => { outs = this.bind(outs, (st, acc) => this.bind(c.params[nm].rest ? this.one(st, this.restArgs(st, args, i)) : this.argAt(st, args, i), (st, v) => this.one(st, [...acc, v]))); });
        return this.bind(outs, (st, vals) => {
            const env0 = this.snapshotEnv(this, st, names, vals);
            const ck = (f, st, nm) => { const t = spec.clause(f, env0, st); if (!this.valid(st, t)) { if (this.feasible(st)) U(`precondition of ${c.id} (${nm}) not established`, n); } };
            if (c.requires) [].concat(c.requires).forEach((f, i) => ck(f, st, 'requires' + i));
            const res = [];
            const learn = (s, fs, env) => { // assume clauses, splitting on kinds they ask for
                let ss = [s];
                for (const f of fs) {
                    const nx = [];
                    for (const s of ss) {
                        const go = s => { let t; try { t = spec.clause(f, env, s); } catch (e) { if (e.need) { for (const o of this.refine(s, e.need)) go(o.st); return; } throw e; } if (t !== 'false') { s.assume(t); nx.push(s); } };
                        go(s);
                    }
                    ss = nx;
                }
                return ss.filter(s => this.feasible(s));
            };
            if (c.ensures) {
                if (!c.returns) U('contract ' + c.id + ' has no result shape', n);
                for (const { st: s, v } of c.returns.mk(this, st.clone(), 'res_' + c.id)) for (const x of learn(s, Object.values(c.ensures), { ...env0, result: v, threw: V.bool('false'), error: V.undef })) res.push(...(c.async ? this.one(x, { t: 'prom', ok: true, v }) : this.deref(x, v)));
            }
            if (c.throws) {
                const s = st.clone(); const e = this.alloc(s, { k: 'err', name: c.raises || 'TypeError', fields: { message: V.str(this.decl('msg', 'String')) } });
                for (const x of learn(s, Object.values(c.throws), { ...env0, error: e, result: V.undef, threw: V.bool('true') })) res.push(c.async ? { st: x, v: { t: 'prom', ok: false, v: e } } : { st: x, thrown: e });
            }
            return res;
        });
    };
    P.depthOf = function (st, node) { let k = 0; for (const f of st.stack) if (f.node === node) k++; return k; };
    P.inline = function (st, c, thisv, args, n) {
        const node = c.node, savedFrame = st.frame, savedStack = st.stack;
        if (node.asteriskToken) U('generator', n);
        let outer = c.frame;
        if (ts.isFunctionExpression(node) && node.name) { outer = this.pushFrame(st, outer); this.setVarIn(st, outer, node.name.text, c.self || V.undef); }
        const fr = this.pushFrame(st, outer, { fn: node });
        if (!ts.isArrowFunction(node)) this.setVarIn(st, fr, 'this', thisv);
        st.frame = fr; st.stack = [...savedStack, { node, frame: fr, caller: savedFrame }];
        if (!ts.isArrowFunction(node) && this.usesArguments(node)) this.setVarIn(st, fr, 'arguments', this.arrayFromArgs(st, args));
        let outs = this.bindParams(node, args, st);
        let comps = [];
        for (const o of outs) {
            if (o.thrown || o.unsup) { comps.push({ st: o.st, c: o.unsup ? { type: 'unsup', msg: o.unsup } : { type: 'throw', v: o.thrown } }); continue; }
            if (ts.isBlock(node.body)) comps.push(...this.execBody(node.body, o.st));
            else { let r; try { r = this.ev(node.body, o.st); } catch (e) { if (!e.unsup) throw e; r = [{ st: o.st, unsup: e.message }]; } for (const x of r) comps.push(x.unsup ? { st: x.st, c: { type: 'unsup', msg: x.unsup } } : x.thrown ? { st: x.st, c: { type: 'throw', v: x.thrown } } : { st: x.st, c: { type: 'return', v: x.v } }); }
        }
        const res = [];
        for (const { st, c: k } of comps) {
            st.frame = savedFrame; st.stack = savedStack;
            if (k.type === 'unsup') { res.push({ st, unsup: k.msg }); continue; }
            if (c.async) {
                if (k.type === 'throw') res.push({ st, v: { t: 'prom', ok: false, v: k.v } });
                else res.push(...this.adopt(st, k.type === 'return' ? k.v : V.undef));
            } else if (k.type === 'throw') res.push({ st, thrown: k.v });
            else res.push({ st, v: k.type === 'return' ? k.v : V.undef });
        }
        return res;
    };
    P.usesArguments = function (node) { let u = false; const v = n => { if (u) return; if (ts.isIdentifier(n) && n.text === 'arguments') { u = true; return; } if (n !== node && (ts.isFunctionExpression(n) || ts.isFunctionDeclaration(n))) return; ts.forEachChild(n, v); }; v(node); return u; };
    P.bindParams = function (node, args, st) {
        let outs = this.one(st, null);
        const params = node.parameters.filter(p => !(ts.isIdentifier(p.name) && p.name.text === 'this'));
        params.forEach((p, i) => {
            outs = this.bind(outs, st => {
                if (p.dotDotDotToken) return this.bindPattern(p.name, this.restArgs(st, args, i), st);
                return this.bind(this.argAt(st, args, i), (st, v) => this.bindWithDefault(p.name, p.initializer, v, st));
            });
        });
        return outs;
    };
    P.argAt = function (st, args, i) {
        let k = 0;
        for (let j = 0; j < args.length; j++) {
            if (args[j].v) { if (k === i) return this.deref(st, args[j].v); k++; continue; }
            const all = this.argSeq(st, args);
            return this.idx(st, all, V.int(String(i)));
        }
        return this.one(st, V.undef);
    };
    P.argSeq = function (st, args) {
        if (args.length === 1 && args[0].spread) return args[0].spread;
        const r = this.arrayFromArgs(st, args); return this.asArr(st, r);
    };
    P.restArgs = function (st, args, i) {
        const first = args.slice(0, i);
        if (first.every(a => a.v)) return this.arrayFromArgs(st, args.slice(i));
        const all = this.argSeq(st, args);
        const start = `(ite (<= ${i} ${all.len}) ${i} ${all.len})`;
        return this.alloc(st, this.sliceArr(st, all, i === 0 ? '0' : start, i === 0 ? all.len : `(- ${all.len} ${start})`));
    };
    P.bindWithDefault = function (pat, init, v, st) {
        if (!init) return this.bindPattern(pat, v, st);
        return this.bind(v.t === 'val' ? this.splitUndef(st, v) : this.one(st, v), (st, v) => v.t === 'undef' ? this.bind(this.ev(init, st), (st, d) => this.bindPattern(pat, d, st)) : this.bindPattern(pat, v, st));
    };
    P.splitUndef = function (st, v) { return this.fork(st, `((_ is VUndef) ${v.e})`).map(({ st, b }) => ({ st, v: b ? V.undef : v })); };
    P.declVar = function (st, name, v) { this.setVarIn(st, st.frame, name, v); };
    P.bindPattern = function (pat, v, st) {
        if (ts.isIdentifier(pat)) { this.declVar(st, pat.text, v); return this.one(st, null); }
        if (ts.isObjectBindingPattern(pat)) {
            return this.bind(this.refineForAccess(st, v), (st, v) => {
                if (v.t === 'undef' || v.t === 'null') return this.throwErr(st, 'TypeError');
                let outs = this.one(st, null); const used = [];
                for (const e of pat.elements) {
                    if (e.dotDotDotToken) {
                        outs = this.bind(outs, st => { const c = v.t === 'ref' && this.cell(st, v); if (!c || c.k !== 'rec') U('object rest', pat); const fields = { ...c.fields }; for (const u of used) delete fields[u]; return this.bindPattern(e.name, this.alloc(st, { k: 'rec', fields }), st); });
                        continue;
                    }
                    const pn = e.propertyName || e.name;
                    outs = this.bind(outs, st => this.bind(this.propName(pn, st), (st, k) => { used.push(k.name); return this.bind(this.getProp(st, v, k, e), (st, x) => this.bindWithDefault(e.name, e.initializer, x, st)); }));
                }
                return outs;
            });
        }
        if (ts.isArrayBindingPattern(pat)) {
            return this.bind(this.refineForAccess(st, v), (st, v) => {
                if (v.t !== 'ref' || !['arr', 'tup'].includes(this.cell(st, v).k)) U('array pattern over ' + v.t, pat);
                let outs = this.one(st, null);
                pat.elements.forEach((e, i) => {
                    if (ts.isOmittedExpression(e)) return;
                    if (e.dotDotDotToken) { outs = this.bind(outs, st => this.bind(this.callMethod({ t: 'bm', recv: v, name: 'slice' }, [{ v: V.int(String(i)) }], st, e), (st, r) => this.bindPattern(e.name, r, st))); return; }
                    outs = this.bind(outs, st => this.bind(this.getIndex(st, v, V.int(String(i))), (st, x) => this.bindWithDefault(e.name, e.initializer, x, st)));
                });
                return outs;
            });
        }
        U('binding pattern', pat);
    };
    // assignment patterns ([a, b] = [b, a])
    P.assignPattern = function (n, v, st) {
        if (ts.isArrayLiteralExpression(n)) {
            return this.bind(this.refineForAccess(st, v), (st, v) => {
                let outs = this.one(st, null);
                n.elements.forEach((e, i) => {
                    if (ts.isOmittedExpression(e)) return;
                    outs = this.bind(outs, st => this.bind(this.getIndex(st, v, V.int(String(i))), (st, x) => this.assignPattern(e, x, st)));
                });
                return outs;
            });
        }
        if (ts.isObjectLiteralExpression(n)) U('object assignment pattern', n);
        return this.evRef(n, st, (st, r) => this.refSet(st, r, v));
    };
    // ---------------- binary
    P.evBinary = function (n, st) {
        const op = n.operatorToken.kind;
        switch (op) {
            case K.CommaToken: return this.bind(this.ev(n.left, st), st => this.ev(n.right, st));
            case K.AmpersandAmpersandToken: return this.bind(this.ev(n.left, st), (st, l) => this.fork(st, this.truthy(st, l)).flatMap(({ st, b }) => b ? this.tryEv(n.right, st) : this.one(st, l)));
            case K.BarBarToken: return this.bind(this.ev(n.left, st), (st, l) => this.fork(st, this.truthy(st, l)).flatMap(({ st, b }) => b ? this.one(st, l) : this.tryEv(n.right, st)));
            case K.QuestionQuestionToken: return this.bind(this.ev(n.left, st), (st, l) => this.splitNullish(st, l).flatMap(({ st, b }) => b ? this.tryEv(n.right, st) : this.one(st, l)));
            case K.EqualsToken:
                if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) return this.bind(this.ev(n.right, st), (st, v) => this.bind(this.assignPattern(n.left, v, st), st => this.one(st, v)));
                return this.evRef(n.left, st, (st, r) => this.bind(this.ev(n.right, st), (st, v) => { this.nameClosure(st, v, n.left); return this.bind(this.refSet(st, r, v), st => this.one(st, v)); }));
            case K.AmpersandAmpersandEqualsToken: case K.BarBarEqualsToken: case K.QuestionQuestionEqualsToken:
                return this.evRef(n.left, st, (st, r) => this.bind(this.refGet(st, r), (st, l) => {
                    const f = op === K.QuestionQuestionEqualsToken ? this.splitNullish(st, l) : this.fork(st, this.truthy(st, l));
                    return f.flatMap(({ st, b }) => (op === K.AmpersandAmpersandEqualsToken ? b : op === K.BarBarEqualsToken ? !b : b) ? this.bind(this.tryEv(n.right, st), (st, v) => this.refSet(st, r, v)) : this.one(st, l));
                }));
        }
        const comp = { [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken, [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken, [K.AmpersandEqualsToken]: K.AmpersandToken, [K.BarEqualsToken]: K.BarToken, [K.CaretEqualsToken]: K.CaretToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken, [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken, [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken, [K.AsteriskAsteriskEqualsToken]: K.AsteriskAsteriskToken }[op];
        if (comp !== undefined) return this.evRef(n.left, st, (st, r) => this.bind(this.refGet(st, r), (st, l) => this.bind(this.ev(n.right, st), (st, v) => this.bind(this.binop(comp, l, v, st, n), (st, x) => this.refSet(st, r, x)))));
        return this.bind(this.ev(n.left, st), (st, l) => this.bind(this.tryEv(n.right, st), (st, r) => this.binop(op, l, r, st, n)));
    };
    P.nameClosure = function () { };
    P.tryEv = function (n, st) { try { return this.ev(n, st); } catch (e) { if (e.unsup) return [{ st, unsup: e.message }]; throw e; } };
    P.splitNullish = function (st, v) {
        if (v.t === 'undef' || v.t === 'null') return [{ st, b: true }];
        if (v.t !== 'val') return [{ st, b: false }];
        return this.fork(st, or([`((_ is VUndef) ${v.e})`, `((_ is VNull) ${v.e})`]));
    };
    P.binop = function (op, l, r, st, n) {
        switch (op) {
            case K.EqualsEqualsEqualsToken: case K.ExclamationEqualsEqualsToken: {
                return this.bind(this.deref(st, l), (st, l) => this.bind(this.deref(st, r), (st, r) => {
                    let t = this.strictEq(st, l, r);
                    return this.one(st, V.bool(op === K.EqualsEqualsEqualsToken ? t : not(t)));
                }));
            }
            case K.EqualsEqualsToken: case K.ExclamationEqualsToken: {
                const nullish = x => x.t === 'undef' || x.t === 'null';
                let t;
                if (nullish(r) || nullish(l)) { const o = nullish(r) ? l : r; t = nullish(o) ? 'true' : o.t === 'val' ? or([`((_ is VUndef) ${o.e})`, `((_ is VNull) ${o.e})`]) : 'false'; }
                else if (l.t === r.t || (['int', 'fp'].includes(l.t) && ['int', 'fp'].includes(r.t))) t = this.strictEq(st, l, r);
                else U('loose equality', n);
                return this.one(st, V.bool(op === K.EqualsEqualsToken ? t : not(t)));
            }
            case K.InstanceOfKeyword: return this.instanceOf(st, l, r, n);
            case K.InKeyword: return this.hasProp(st, r, l, n);
        }
        const arith = { [K.PlusToken]: '+', [K.MinusToken]: '-', [K.AsteriskToken]: '*', [K.SlashToken]: '/', [K.PercentToken]: '%', [K.AsteriskAsteriskToken]: '**', [K.AmpersandToken]: '&', [K.BarToken]: '|', [K.CaretToken]: '^', [K.LessThanLessThanToken]: '<<', [K.GreaterThanGreaterThanToken]: '>>', [K.GreaterThanGreaterThanGreaterThanToken]: '>>>' }[op];
        const rel = { [K.LessThanToken]: '<', [K.LessThanEqualsToken]: '<=', [K.GreaterThanToken]: '>', [K.GreaterThanEqualsToken]: '>=' }[op];
        return this.bind(this.refine(st, l), (st, l) => this.bind(this.refine(st, r), (st, r) => {
            if (rel) {
                for (const [x, y] of [[l, r], [r, l]]) if (x.t === 'obj' && y.t === 'big' && this.valid(st, eq(`(otag ${x.e})`, '"BigInt"'))) { // a wrapper object stands for its value
                    const b = `(oprop ${x.e} (VStr "%valueOf"))`; st.assume(`((_ is VBig) ${b})`); if (x === l) l = V.big(`(vbig ${b})`); else r = V.big(`(vbig ${b})`);
                }
                return this.one(st, V.bool(this.compare(rel, l, r)));
            }
            if (arith === '+' && (l.t === 'str' || r.t === 'str')) return this.bind(this.toStr(st, l), (st, a) => this.bind(this.toStr(st, r), (st, b) => this.one(st, V.str(this.concatStr([a.e, b.e])))));
            return this.arith(arith, l, r, st, n);
        }));
    };
    P.arith = function (op, a, b, st, n) {
        const cv = x => x.t === 'bool' ? V.int(ite(x.e, '1', '0')) : x.t === 'null' ? V.int('0') : x.t === 'undef' ? V.num(NaN) : x;
        a = cv(a); b = cv(b);
        if (a.t === 'int' && b.t === 'int') {
            if (isNumLit(a.e) && isNumLit(b.e)) { // constant folding with real JS semantics
                const x = Number(litVal(a.e)), y = Number(litVal(b.e));
                const r = { '+': x + y, '-': x - y, '*': x * y, '/': x / y, '%': x % y, '**': x ** y, '&': x & y, '|': x | y, '^': x ^ y, '<<': x << y, '>>': x >> y, '>>>': x >>> y }[op];
                return this.one(st, V.num(r));
            }
            switch (op) {
                case '+': return this.intRes(st, add(a.e, b.e));
                case '-': return this.intRes(st, sub(a.e, b.e));
                case '*': return this.intRes(st, mul(a.e, b.e));
                case '/':
                    return this.fork(st, eq(b.e, '0')).flatMap(({ st, b: z }) => {
                        if (z) return [{ st, v: V.fp(`(ite (= ${a.e} 0) (_ NaN 11 53) (ite (< ${a.e} 0) (_ -oo 11 53) (_ +oo 11 53)))`) }];
                        return this.one(st, V.real(`(/ ${this.toReal(a)} ${this.toReal(b)})`, { a: a.e, b: b.e }));
                    });
                case '%':
                    return this.fork(st, eq(b.e, '0')).flatMap(({ st, b: z }) => {
                        if (z) return this.one(st, V.num(NaN));
                        // JS remainder has the sign of the dividend; SMT mod is non-negative
                        if (this.valid(st, and([cmp('<=', '0', a.e), cmp('<', '0', b.e)]))) return this.one(st, V.int(this.divMod(a.e, b.e).r));
                        return this.one(st, V.int(`(ite (>= ${a.e} 0) (mod ${a.e} (abs ${b.e})) (- (mod (- ${a.e}) (abs ${b.e}))))`));
                    });
                case '>>': case '>>>': if (isNumLit(b.e)) { const k = litVal(b.e); if (k < 32n && this.valid(st, and([cmp('<=', '0', a.e), cmp('<', a.e, '2147483648')]))) return this.one(st, V.int(`(div ${a.e} ${2n ** k})`)); if (op === '>>>' && k === 0n && this.valid(st, and([cmp('<=', '0', a.e), cmp('<', a.e, '4294967296')]))) return this.one(st, a); } break;
                case '<<': if (isNumLit(b.e)) { const k = litVal(b.e); const r = mul(a.e, String(2n ** k)); if (this.valid(st, and([cmp('<=', '(- 2147483648)', r), cmp('<=', r, '2147483647')]))) return this.one(st, V.int(r)); } break;
                case '&': {
                    let [x, m] = isNumLit(b.e) ? [a.e, b.e] : [b.e, a.e];
                    if (isNumLit(m)) { const k = litVal(m); if (k >= 0n && ((k + 1n) & k) === 0n && this.valid(st, and([cmp('<=', '0', x), cmp('<', x, '2147483648')]))) return this.one(st, V.int(`(mod ${x} ${k + 1n})`)); }
                    break;
                }
                case '|': {
                    let [x, m] = isNumLit(b.e) ? [a.e, b.e] : [b.e, a.e];
                    if (isNumLit(m)) { const k = litVal(m); if (k === 0n && this.valid(st, and([cmp('<=', '(- 2147483648)', x), cmp('<=', x, '2147483647')]))) return this.one(st, V.int(x)); if (k > 0n) { const low = k & -k; if (this.valid(st, and([cmp('<=', '0', x), cmp('<', x, String(low))]))) return this.one(st, V.int(add(x, String(k)))); } }
                    break;
                }
            }
            const m32 = '4294967296', h32 = '2147483648', wrap = e => `(- (mod (+ ${e} ${h32}) ${m32}) ${h32})`, lit = isNumLit(b.e) ? litVal(b.e) : null, kb = lit === null ? null : lit & 31n; // the 32-bit operators, on any integer
            if (op === '>>' && kb !== null) return this.one(st, V.int(`(div ${wrap(a.e)} ${2n ** kb})`));
            if (op === '>>>' && kb !== null) return this.one(st, V.int(`(div (mod ${a.e} ${m32}) ${2n ** kb})`));
            if (op === '<<' && kb !== null) return this.one(st, V.int(wrap(`(* ${a.e} ${2n ** kb})`)));
            if (op === '|' && lit === 0n) return this.one(st, V.int(wrap(a.e)));
            if (op === '&') { const [x, m] = lit !== null ? [a.e, lit] : isNumLit(a.e) ? [b.e, litVal(a.e)] : []; if (x && m >= 0n && m < 2147483648n && ((m + 1n) & m) === 0n) return this.one(st, V.int(`(mod ${x} ${m + 1n})`)); }
            U(`integer operator ${op}`, n);
        }
        if (a.t === 'big' && b.t === 'big') { const f = { '+': '+', '-': '-', '*': '*' }[op]; if (f) return this.one(st, V.big(`(${f} ${a.e} ${b.e})`)); U('bigint ' + op, n); }
        const realish = (x, y) => x.t === 'int' && !isNumLit(x.e) && y.t === 'fp' && y.c !== undefined && Number.isFinite(y.c);
        if (a.t === 'real' || b.t === 'real' || (['+', '-', '*'].includes(op) && (realish(a, b) || realish(b, a)))) {
            this.assumptions.add('real-arithmetic: quotients and Math.random() products are treated as exact reals');
            const x = this.toReal(a), y = this.toReal(b);
            if (['+', '-', '*'].includes(op)) return this.one(st, V.real(`(${op} ${x} ${y})`));
            if (op === '/' && this.valid(st, `(not (= ${y} 0.0))`)) return this.one(st, V.real(`(/ ${x} ${y})`));
            if (['<<', '>>', '>>>', '|'].includes(op) && a.t === 'real' && b.t === 'int' && isNumLit(b.e)) return this.arith(op, V.int(`(ite (>= ${a.e} 0.0) (to_int ${a.e}) (- (to_int (- ${a.e}))))`), b, st, n);
            U('real ' + op, n);
        }
        if ((a.t === 'fp' || a.t === 'int') && (b.t === 'fp' || b.t === 'int')) {
            if (a.c !== undefined && b.c !== undefined) { const x = a.c, y = b.c; const r = { '+': x + y, '-': x - y, '*': x * y, '/': x / y, '%': x % y }[op]; if (r !== undefined) return this.one(st, V.num(r)); }
            if (op === '%') {
                if (b.t === 'int' && isNumLit(b.e) && a.t === 'fp') {
                    const k = litVal(b.e);
                    if (k > 0n && (k & (k - 1n)) === 0n) { // exact: scaling by a power of two and subtracting the truncated part
                        const x = a.e, q = k === 1n ? x : `(fp.div RNE ${x} ${fpLit(Number(k))})`;
                        const t = `(fp.roundToIntegral RTZ ${q})`;
                        const s = k === 1n ? t : `(fp.mul RNE ${t} ${fpLit(Number(k))})`;
                        return this.one(st, { ...V.fp(`(ite (or (fp.isNaN ${x}) (fp.isInfinite ${x})) (_ NaN 11 53) (fp.sub RNE ${x} ${s}))`), rem: { x, q, k } });
                    }
                }
                U('floating remainder', n);
            }
            const f = { '+': 'fp.add', '-': 'fp.sub', '*': 'fp.mul', '/': 'fp.div' }[op];
            if (!f) U('floating ' + op, n);
            const [x, y] = this.toFp2(a, b);
            return this.one(st, V.fp(`(${f} RNE ${x} ${y})`));
        }
        U(`arithmetic ${a.t} ${op} ${b.t}`, n);
    };
    P.intRes = function (st, e) { return this.one(st, V.int(e)); };
    P.toNumber = function (st, v) {
        return this.bind(this.refine(st, v), (st, v) => {
            switch (v.t) {
                case 'int': case 'fp': case 'real': return this.one(st, v);
                case 'undef': return this.one(st, V.num(NaN)); case 'null': return this.one(st, V.int('0'));
                case 'bool': return this.one(st, V.int(ite(v.e, '1', '0')));
                case 'str': if (/^"[^"\\]*"$/.test(v.e)) return this.one(st, V.num(Number(v.e.slice(1, -1)))); return this.bind(this.refineNum(st, `(str2num ${v.e})`), (st, x) => this.one(st, x));
                case 'sym': case 'big': return this.throwErr(st, 'TypeError');
                case 'ref': case 'obj': case 'ofn': return this.bind(this.refineNum(st, `(oprop ${this.box(v, st)} (VStr "%tonumber"))`), (st, x) => this.one(st, x));
            }
            U('ToNumber of ' + v.t);
        });
    };
    P.refineNum = function (st, e) { const s = st.clone().assume(or([`((_ is VInt) ${e})`, `((_ is VFp) ${e})`])); return this.refine(s, V.val(e)); };

    // ---------------- statements; completion {type, v, label}
    P.execBody = function (block, st) { this.hoist(block.statements, st); return this.execList(block.statements, 0, st); };
    P.hoist = function (stmts, st) {
        for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.body) this.declVar(st, s.name.text, this.closure(st, s, st.frame));
        for (const s of stmts) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) this.tdz(d.name, st);
    };
    P.tdz = function (n, st) { if (ts.isIdentifier(n)) this.declVar(st, n.text, { t: 'tdz' }); else for (const e of n.elements) if (!ts.isOmittedExpression(e)) this.tdz(e.name, st); };
    P.execList = function (stmts, i, st) {
        let states = [st]; const done = [];
        for (; i < stmts.length; i++) {
            const next = [];
            for (const s of states) {
                this.tick();
                let cs;
                try { cs = this.exec(stmts[i], s); }
                catch (e) { if (e.unsup) cs = [{ st: s, c: { type: 'unsup', msg: e.message } }]; else throw e; }
                for (const o of cs) (o.c.type === 'normal' ? next : done).push(o.c.type === 'normal' ? o.st : o);
            }
            states = next;
            if (states.length + done.length > this.maxOuts) throw new (require('./engine').Budget)('path budget exhausted');
        }
        return [...done, ...states.map(st => ({ st, c: { type: 'normal' } }))];
    };
    P.comp = function (outs, f) { // outcomes -> completions
        const r = [];
        for (const o of outs) {
            if (o.unsup) r.push({ st: o.st, c: { type: 'unsup', msg: o.unsup } });
            else if (o.thrown) r.push({ st: o.st, c: { type: 'throw', v: o.thrown } });
            else { try { r.push(...f(o.st, o.v)); } catch (e) { if (!e.unsup) throw e; r.push({ st: o.st, c: { type: 'unsup', msg: e.message } }); } }
        }
        return r;
    };
    const N = st => [{ st, c: { type: 'normal' } }];
    P.withBlock = function (st, f) { // block scope
        const saved = st.frame; st.frame = this.pushFrame(st, saved);
        const r = f(st); for (const o of r) o.st.frame = saved; return r;
    };
    P.exec = function (n, st) {
        switch (n.kind) {
            case K.Block: return this.withBlock(st, st => this.execBody(n, st));
            case K.EmptyStatement: case K.FunctionDeclaration: case K.InterfaceDeclaration: case K.TypeAliasDeclaration: return N(st);
            case K.ExpressionStatement: return this.comp(this.ev(n.expression, st), N);
            case K.VariableStatement: return this.execDecls(n.declarationList, st);
            case K.ReturnStatement: if (!n.expression) return [{ st, c: { type: 'return', v: V.undef } }]; return this.comp(this.ev(n.expression, st), (st, v) => [{ st, c: { type: 'return', v } }]);
            case K.ThrowStatement: return this.comp(this.ev(n.expression, st), (st, v) => [{ st, c: { type: 'throw', v } }]);
            case K.IfStatement: return this.comp(this.evCond(n.expression, st), (st, b) => b ? this.exec(n.thenStatement, st) : n.elseStatement ? this.exec(n.elseStatement, st) : N(st));
            case K.BreakStatement: return [{ st, c: { type: 'break', label: n.label && n.label.text } }];
            case K.ContinueStatement: return [{ st, c: { type: 'continue', label: n.label && n.label.text } }];
            case K.ForStatement: case K.WhileStatement: case K.DoStatement: case K.ForOfStatement: case K.ForInStatement: return this.execLoop(n, st);
            case K.LabeledStatement: return this.exec(n.statement, st, n.label.text).map(o => (o.c.type === 'break' && o.c.label === n.label.text) ? { st: o.st, c: { type: 'normal' } } : o);
            case K.SwitchStatement: return this.execSwitch(n, st);
            case K.TryStatement: return this.execTry(n, st);
        }
        U('statement ' + K[n.kind], n);
    };
    P.execDecls = function (list, st) {
        let outs = this.one(st, null);
        for (const d of list.declarations) outs = this.bind(outs, st => {
            if (!d.initializer) { if (ts.isIdentifier(d.name)) { this.declVar(st, d.name.text, V.undef); } return this.one(st, null); }
            return this.bind(this.ev(d.initializer, st), (st, v) => this.bindPattern(d.name, v, st));
        });
        return this.comp(outs, N);
    };
    P.execSwitch = function (n, st) {
        return this.withBlock(st, st => this.comp(this.ev(n.expression, st), (st, v) => {
            const cl = n.caseBlock.clauses;
            this.hoist(cl.flatMap(c => [...c.statements]), st);
            const run = (i, st) => { const stm = []; for (let j = i; j < cl.length; j++) stm.push(...cl[j].statements); return this.execList(stm, 0, st).map(o => o.c.type === 'break' && !o.c.label ? { st: o.st, c: { type: 'normal' } } : o); };
            const test = (i, st) => {
                if (i >= cl.length) { const d = cl.findIndex(c => ts.isDefaultClause(c)); return d < 0 ? N(st) : run(d, st); }
                if (ts.isDefaultClause(cl[i])) return test(i + 1, st);
                return this.comp(this.ev(cl[i].expression, st), (st, x) => this.comp(this.binop(K.EqualsEqualsEqualsToken, v, x, st, n), (st, b) => this.fork(st, b.e).flatMap(({ st, b }) => b ? run(i, st) : test(i + 1, st))));
            };
            return test(0, st);
        }));
    };
    P.execTry = function (n, st) {
        const saved = st.frame, savedStack = st.stack;
        let r;
        try { r = this.exec(n.tryBlock, st); } catch (e) { if (!e.unsup) throw e; r = [{ st, c: { type: 'unsup', msg: e.message } }]; }
        if (n.catchClause) {
            const out = [];
            for (const o of r) {
                if (o.c.type !== 'throw') { out.push(o); continue; }
                o.st.frame = saved; o.st.stack = savedStack;
                out.push(...this.withBlock(o.st, st => {
                    const d = n.catchClause.variableDeclaration;
                    return this.comp(d ? this.bindPattern(d.name, o.c.v, st) : this.one(st, null), st => this.exec(n.catchClause.block, st));
                }));
            }
            r = out;
        }
        if (n.finallyBlock) {
            const out = [];
            for (const o of r) {
                if (o.c.type === 'unsup') { out.push(o); continue; }
                o.st.frame = saved; o.st.stack = savedStack;
                for (const f of this.exec(n.finallyBlock, o.st)) out.push(f.c.type === 'normal' ? { st: f.st, c: o.c } : f);
            }
            r = out;
        }
        return r;
    };
};
