'use strict';
// Translate a JavaScript regular expression literal (the regular part of the
// language: no back-references, no look-around, anchors only at the ends) into
// an SMT regular language over UTF-16 code units.  null: outside that subset.
const { strLit } = require('./values');
class Out extends Error {}
const CP = c => String.fromCharCode(c);
const range = (a, b) => (a === b ? `(str.to_re ${strLit(CP(a))})` : `(re.range ${strLit(CP(a))} ${strLit(CP(b))})`);
const union = xs => (xs.length === 0 ? 're.none' : xs.length === 1 ? xs[0] : `(re.union ${xs.join(' ')})`);
const D = [[48, 57]], W = [[48, 57], [65, 90], [95, 95], [97, 122]];
const S = [[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
const DOT = [[10, 10], [13, 13], [0x2028, 0x2029]];
function invert(rs) { const s = rs.slice().sort((a, b) => a[0] - b[0]), o = []; let p = 0; for (const [a, b] of s) { if (a > p) o.push([p, a - 1]); p = Math.max(p, b + 1); } if (p <= 0xffff) o.push([p, 0xffff]); return o; }
function parse(src) {
    const m = /^\/([\s\S]*)\/([a-z]*)$/.exec(src);
    if (!m) return null;
    const p = m[1], flags = m[2];
    if (/[mvuys]/.test(flags)) return null;
    const ci = flags.includes('i');
    let i = 0;
    const caseless = (a, b) => { if (b - a > 256) return false; for (let c = a; c <= b; c++) { const x = CP(c); if (x.toUpperCase() !== x || x.toLowerCase() !== x) return false; } return true; };
    const fold = rs => { if (!ci) return rs; const o = rs.slice(); for (const [a, b] of rs) { for (let c = Math.max(a, 65); c <= Math.min(b, 90); c++) o.push([c + 32, c + 32]); for (let c = Math.max(a, 97); c <= Math.min(b, 122); c++) o.push([c - 32, c - 32]); if (b > 127 && a !== 0 && !caseless(a, b)) { if (a > 127) throw new Out(); } } return o; };
    const set = rs => ({ k: 'set', rs: fold(rs) });
    const esc = inClass => { // after backslash
        const c = p[i++];
        if (c === 'd') return D; if (c === 'D') return invert(D); if (c === 'w') return W; if (c === 'W') return invert(W); if (c === 's') return S; if (c === 'S') return invert(S);
        const simple = { n: 10, r: 13, t: 9, f: 12, v: 11, 0: 0 };
        if (c in simple) { if (c === '0' && /\d/.test(p[i] || '')) throw new Out(); return [[simple[c], simple[c]]]; }
        if (c === 'x') { const h = p.substr(i, 2); if (!/^[0-9a-f]{2}$/i.test(h)) throw new Out(); i += 2; return [[parseInt(h, 16), parseInt(h, 16)]]; }
        if (c === 'u') { const h = p.substr(i, 4); if (!/^[0-9a-f]{4}$/i.test(h)) throw new Out(); i += 4; return [[parseInt(h, 16), parseInt(h, 16)]]; }
        if (c === 'b' && inClass) return [[8, 8]];
        if (/[bBkcpP1-9]/.test(c)) throw new Out();
        return [[c.charCodeAt(0), c.charCodeAt(0)]];
    };
    const cls = () => {
        let neg = false; if (p[i] === '^') { neg = true; i++; }
        const rs = [];
        while (p[i] !== ']') {
            if (i >= p.length) throw new Out();
            let a; if (p[i] === '\\') { i++; a = esc(true); } else { const c = p.charCodeAt(i++); a = [[c, c]]; }
            if (p[i] === '-' && p[i + 1] !== ']' && a.length === 1 && a[0][0] === a[0][1]) {
                i++; let b; if (p[i] === '\\') { i++; b = esc(true); } else { const c = p.charCodeAt(i++); b = [[c, c]]; }
                if (b.length !== 1) throw new Out();
                rs.push([a[0][0], b[0][1]]);
            } else rs.push(...a);
        }
        i++;
        const f = fold(rs);
        return { k: 'set', rs: neg ? invert(f) : f };
    };
    const atom = () => {
        const c = p[i];
        if (c === '(') {
            i++;
            if (p[i] === '?') { if (p[i + 1] === ':') i += 2; else throw new Out(); }
            const r = alt(); if (p[i] !== ')') throw new Out(); i++; return r;
        }
        if (c === '[') { i++; return cls(); }
        if (c === '.') { i++; return { k: 'set', rs: invert(DOT) }; }
        if (c === '\\') { i++; return set(esc(false)); }
        if (c === '^') { i++; return { k: 'bos' }; }
        if (c === '$') { i++; return { k: 'eos' }; }
        i++; const x = c.charCodeAt(0); return set([[x, x]]);
    };
    const term = () => {
        let a = atom();
        for (;;) {
            const c = p[i]; let lo, hi;
            if (c === '*') { i++; lo = 0; hi = Infinity; } else if (c === '+') { i++; lo = 1; hi = Infinity; } else if (c === '?') { i++; lo = 0; hi = 1; }
            else if (c === '{' && /^\{\d+(,\d*)?\}/.test(p.slice(i))) { const q = /^\{(\d+)(,(\d*))?\}/.exec(p.slice(i)); i += q[0].length; lo = +q[1]; hi = q[2] === undefined ? lo : q[3] === '' ? Infinity : +q[3]; }
            else break;
            let lazy = false; if (p[i] === '?') { i++; lazy = true; }
            a = { k: 'rep', a, lo, hi, lazy };
        }
        return a;
    };
    const seq = () => { const xs = []; while (i < p.length && p[i] !== '|' && p[i] !== ')') xs.push(term()); return { k: 'seq', xs }; };
    function alt() { const xs = [seq()]; while (p[i] === '|') { i++; xs.push(seq()); } if (xs.length > 1 && xs.every(x => x.xs.length === 1 && x.xs[0].k === 'set')) return { k: 'seq', xs: [{ k: 'set', rs: xs.flatMap(x => x.xs[0].rs) }] }; return xs.length === 1 ? xs[0] : { k: 'alt', xs }; }
    const r = alt();
    if (i < p.length) throw new Out();
    return { ast: r, flags };
}
// one writing for one set of characters
const norm = rs => { const o = []; for (const [a, b] of rs.slice().sort((x, y) => x[0] - y[0])) { const z = o[o.length - 1]; if (z && a <= z[1] + 1) z[1] = Math.max(z[1], b); else o.push([a, b]); } return o; };
const emit = n => {
    switch (n.k) {
        case 'set': return union(norm(n.rs).map(([a, b]) => range(a, b)));
        case 'seq': return n.xs.length === 0 ? '(str.to_re "")' : n.xs.length === 1 ? emit(n.xs[0]) : `(re.++ ${n.xs.map(emit).join(' ')})`;
        case 'alt': return union(n.xs.map(emit));
        case 'rep': { const a = emit(n.a); if (n.lo === 0 && n.hi === Infinity) return `(re.* ${a})`; if (n.lo === 1 && n.hi === Infinity) return `(re.+ ${a})`; if (n.lo === 0 && n.hi === 1) return `(re.opt ${a})`; if (n.hi === Infinity) return `(re.++ ((_ re.loop ${n.lo} ${n.lo}) ${a}) (re.* ${a}))`; return `((_ re.loop ${n.lo} ${n.hi}) ${a})`; }
    }
    throw new Out();
};
// (?:[ab])+ is [ab]+
function flatSet(x) { if (x.k === 'seq' && x.xs.length === 1) return flatSet(x.xs[0]); return x.k === 'rep' ? { ...x, a: flatSet(x.a) } : x; }
// language of whole subjects on which /src/.test(subject) is true
function compile(src) {
    try {
        const r = parse(src); if (!r) return null;
        const alts = r.ast.k === 'alt' ? r.ast.xs : [r.ast];
        const outs = alts.map(a => {
            let xs = a.k === 'seq' ? a.xs.slice() : [a]; let s = false, e = false;
            while (xs.length && xs[0].k === 'bos') { s = true; xs.shift(); }
            while (xs.length && xs[xs.length - 1].k === 'eos') { e = true; xs.pop(); }
            const parts = []; if (!s) parts.push('re.all'); parts.push(emit({ k: 'seq', xs })); if (!e) parts.push('re.all');
            return parts.length === 1 ? parts[0] : `(re.++ ${parts.join(' ')})`;
        });
        return union(outs);
    } catch (e) { if (e instanceof Out) return null; throw e; }
}
// /abc/, /^abc/, /abc$/, /^abc$/ : plain text tests as string predicates on term s
function plain(src, s) {
    let r; try { r = parse(src); } catch (e) { if (e instanceof Out) return null; throw e; }
    if (!r || r.ast.k !== 'seq') return null;
    const xs = r.ast.xs.slice(); let a = false, z = false;
    if (xs.length && xs[0].k === 'bos') { a = true; xs.shift(); }
    if (xs.length && xs[xs.length - 1].k === 'eos') { z = true; xs.pop(); }
    if (!xs.length || !xs.every(x => x.k === 'set' && x.rs.length === 1 && x.rs[0][0] === x.rs[0][1])) return null;
    const lit = strLit(xs.map(x => CP(x.rs[0][0])).join(''));
    return a && z ? `(= ${s} ${lit})` : a ? `(str.prefixof ${lit} ${s})` : z ? `(str.suffixof ${lit} ${s})` : `(str.contains ${s} ${lit})`;
}
// language of the matched text itself (no anchors)
function body(src) { try { const r = parse(src); return r ? emit(r.ast) : null; } catch (e) { if (e instanceof Out) return null; throw e; } }
// shape of a single match: { bos, eos, body, rep: class language when the body is one greedy C+ / C*, groups }
function shape(src) {
    try {
        const r = parse(src); if (!r) return null;
        let xs = r.ast.k === 'alt' ? [r.ast] : r.ast.xs.slice(), bos = false, eos = false;
        while (xs.length && xs[0].k === 'bos') { bos = true; xs.shift(); }
        while (xs.length && xs[xs.length - 1].k === 'eos') { eos = true; xs.pop(); }
        xs = xs.map(flatSet);
        const body = emit({ k: 'seq', xs });
        const one = xs.length === 1 && xs[0].k === 'rep' && xs[0].a.k === 'set' && xs[0].hi === Infinity && xs[0].lo <= 1 && !xs[0].lazy ? xs[0] : null;
        return { bos, eos, body, cls: one ? emit(one.a) : null, rs: one ? one.a.rs : null, lo: one ? one.lo : 0, ast: { k: 'seq', xs } };
    } catch (e) { if (e instanceof Out) return null; throw e; }
}
const groupsOf = src => { try { return new RegExp(src.slice(1, src.lastIndexOf('/')) + '|').exec('').length - 1; } catch { return null; } };
// the single characters (sorted ranges) a look-ahead like /(?=[...])/g stands before
function lookClass(src) { const m = /^\/\(\?=(\[[\s\S]*\])\)\/g$/.exec(src); if (!m) return null; try { const r = parse('/' + m[1] + '/'); if (r && r.ast.k === 'seq' && r.ast.xs.length === 1 && r.ast.xs[0].k === 'set') return r.ast.xs[0].rs; } catch (e) { if (!(e instanceof Out)) throw e; } return null; }
// the characters (sorted ranges) of a one-character class like /\s/ or /^[ab]$/
function oneOf(src) { try { const r = parse(src); if (!r || r.ast.k !== 'seq') return null; const xs = r.ast.xs.map(flatSet).filter(x => x.k !== 'bos' && x.k !== 'eos'); return xs.length === 1 && xs[0].k === 'set' ? xs[0].rs : xs.length === 1 && xs[0].k === 'rep' && xs[0].lo === 1 && xs[0].a.k === 'set' ? xs[0].a.rs : null; } catch (e) { if (e instanceof Out) return null; throw e; } }
// /^C+|C+$/g : the two patterns of its ends
function bothEnds(src) {
    let r; try { r = parse(src); } catch (e) { if (e instanceof Out) return null; throw e; }
    if (!r) return null;
    let a = r.ast; while (a.k === 'seq' && a.xs.length === 1) a = a.xs[0];
    if (a.k !== 'alt' || a.xs.length !== 2) return null;
    const [x, y] = a.xs.map(z => (z.k === 'seq' ? z.xs.map(flatSet) : []));
    const run = t => t && t.k === 'rep' && t.lo === 1 && t.hi === Infinity && !t.lazy && t.a.k === 'set';
    if (x.length !== 2 || y.length !== 2 || x[0].k !== 'bos' || y[1].k !== 'eos' || !run(x[1]) || !run(y[0]) || emit(x[1].a) !== emit(y[0].a)) return null;
    const u = c => '\\u' + c.toString(16).padStart(4, '0'), cls = '[' + x[1].a.rs.map(([p, q]) => u(p) + '-' + u(q)).join('') + ']+';
    return ['/^' + cls + '/', '/' + cls + '$/'];
}
// a pattern that can match nothing but the empty text
function emptyOnly(src) { const f = n => n.k === 'bos' || n.k === 'eos' || (n.xs ? n.xs.every(f) : n.k === 'rep' && f(n.a)); try { const r = parse(src); return !!r && f(r.ast); } catch (e) { if (e instanceof Out) return false; throw e; } }
// single characters every match holds
function required(src) {
    const f = n => n.k === 'seq' ? new Set(n.xs.flatMap(x => [...f(x)])) : n.k === 'alt' ? n.xs.map(f).reduce((a, b) => new Set([...a].filter(x => b.has(x)))) : n.k === 'rep' ? (n.lo >= 1 ? f(n.a) : new Set()) : n.k === 'set' && n.rs.length === 1 && n.rs[0][0] === n.rs[0][1] ? new Set([n.rs[0][0]]) : new Set();
    try { const r = parse(src); return r ? [...f(r.ast)].map(c => strLit(CP(c))) : []; } catch (e) { if (e instanceof Out) return []; throw e; }
}
// can a match begin nowhere but at the start
function anchored(src) { const f = n => n.k === 'bos' || (n.k === 'seq' && n.xs.length > 0 && f(n.xs[0])) || (n.k === 'alt' && n.xs.every(f)); try { const r = parse(src); return !!r && f(r.ast); } catch (e) { if (e instanceof Out) return false; throw e; } }
module.exports = { required, anchored, emptyOnly, norm, bothEnds, oneOf, compile, plain, body, parse, shape, groupsOf, lookClass };
