'use strict';
// Term construction and the typed symbolic value universe.
const SAFE = '9007199254740991';
const isNumLit = e => /^(\d+|\(- \d+\))$/.test(e);
const litVal = e => (e[0] === '(' ? -BigInt(e.slice(3, -1)) : BigInt(e));
const intLit = n => { n = BigInt(n); return n < 0n ? `(- ${-n})` : `${n}`; };

function and(xs) {
    xs = xs.filter(x => x !== 'true');
    if (xs.includes('false')) return 'false';
    if (!xs.length) return 'true';
    return xs.length === 1 ? xs[0] : `(and ${xs.join(' ')})`;
}
function or(xs) {
    xs = xs.filter(x => x !== 'false');
    if (xs.includes('true')) return 'true';
    if (!xs.length) return 'false';
    return xs.length === 1 ? xs[0] : `(or ${xs.join(' ')})`;
}
function not(x) {
    if (x === 'true') return 'false';
    if (x === 'false') return 'true';
    if (x.startsWith('(not ') ) return x.slice(5, -1);
    return `(not ${x})`;
}
function implies(a, b) { if (a === 'true') return b; if (a === 'false' || b === 'true') return 'true'; return `(=> ${a} ${b})`; }
const strLitRe = /^"[^"]*"$/;
function eq(a, b) {
    if (a === b) return 'true';
    if (isNumLit(a) && isNumLit(b)) return 'false';
    if (strLitRe.test(a) && strLitRe.test(b)) return 'false';
    return `(= ${a} ${b})`;
}
function ite(c, a, b) { if (c === 'true') return a; if (c === 'false') return b; if (a === b) return a; return `(ite ${c} ${a} ${b})`; }
function add(a, b) {
    if (isNumLit(a) && isNumLit(b)) return intLit(litVal(a) + litVal(b));
    if (a === '0') return b; if (b === '0') return a;
    let m;
    if (isNumLit(b) && (m = /^\(\+ (.*) (\d+|\(- \d+\))\)$/.exec(a)) && balanced(m[1])) return add(m[1], intLit(litVal(m[2]) + litVal(b)));
    return `(+ ${a} ${b})`;
}
function balanced(s) { let d = 0; for (let i = 0; i < s.length; i++) { const c = s[i]; if (c === '"') { i = s.indexOf('"', i + 1); if (i < 0) return false; continue; } if (c === '(') d++; else if (c === ')') d--; else if (c === ' ' && d === 0) return false; if (d < 0) return false; } return d === 0; }
function sub(a, b) {
    if (isNumLit(a) && isNumLit(b)) return intLit(litVal(a) - litVal(b));
    if (isNumLit(b)) return add(a, intLit(-litVal(b)));
    if (a === b) return '0';
    return `(- ${a} ${b})`;
}
function mul(a, b) {
    if (isNumLit(a) && isNumLit(b)) return intLit(litVal(a) * litVal(b));
    if (a === '1') return b; if (b === '1') return a; if (a === '0' || b === '0') return '0';
    return `(* ${a} ${b})`;
}
function cmp(op, a, b) {
    if (isNumLit(a) && isNumLit(b)) { const x = litVal(a), y = litVal(b); return String(op === '<' ? x < y : op === '<=' ? x <= y : op === '>' ? x > y : x >= y); }
    if (a === b) return String(op === '<=' || op === '>=');
    return `(${op} ${a} ${b})`;
}
const isLit = e => /^"(?:[^"]|"")*"$/.test(e);
const unLit = e => e.slice(1, -1).replace(/""/g, '"').replace(/\\u\{([0-9a-f]+)\}/g, (_, h) => String.fromCharCode(parseInt(h, 16)));
function strLit(s) {
    let o = '"';
    for (let i = 0; i < s.length; i++) {
        const c = s.charCodeAt(i);
        if (c === 0x22) o += '""';
        else if (c === 0x5c || c < 0x20 || c > 0x7e) o += `\\u{${c.toString(16)}}`;
        else o += s[i];
    }
    return o + '"';
}
function fpLit(x) {
    if (Number.isNaN(x)) return '(_ NaN 11 53)';
    if (x === Infinity) return '(_ +oo 11 53)';
    if (x === -Infinity) return '(_ -oo 11 53)';
    const dv = new DataView(new ArrayBuffer(8));
    dv.setFloat64(0, x);
    const b = dv.getBigUint64(0).toString(2).padStart(64, '0');
    return `(fp #b${b[0]} #b${b.slice(1, 12)} #b${b.slice(12)})`;
}
const FP = '(_ FloatingPoint 11 53)';

const PRELUDE = [
    `(declare-datatypes ((Val 0)) (((VUndef) (VNull) (VBool (vb Bool)) (VInt (vi Int)) (VFp (vf ${FP})) (VStr (vs String)) (VBig (vbig Int)) (VSym (vsym Int)) (VObj (vo Int)) (VFn (vfn Int)))))`,
    `(declare-datatypes ((JSeq 1)) ((par (T) ((mkseq (sarr (Array Int T)) (slen Int))))))`,
    // truthiness of an arbitrary JS value
    `(define-fun truthy ((v Val)) Bool (ite ((_ is VBool) v) (vb v) (ite ((_ is VInt) v) (not (= (vi v) 0)) (ite ((_ is VFp) v) (not (or (fp.isNaN (vf v)) (fp.isZero (vf v)))) (ite ((_ is VStr) v) (not (= (vs v) "")) (ite ((_ is VBig) v) (not (= (vbig v) 0)) (not (or ((_ is VUndef) v) ((_ is VNull) v)))))))))`,
    // identity (Object.is modulo the sign of zero on VInt) and strict equality
    `(define-fun vzero ((v Val)) Bool (or (= v (VInt 0)) (and ((_ is VFp) v) (fp.isZero (vf v)))))`,
    `(define-fun vnan ((v Val)) Bool (and ((_ is VFp) v) (fp.isNaN (vf v))))`,
    `(define-fun seq3 ((a Val) (b Val)) Bool (or (and (= a b) (not (vnan a))) (and (vzero a) (vzero b))))`,
    // uninterpreted views of opaque objects
    `(declare-fun oisarr (Int) Bool)`,
    `(declare-fun oarr (Int) (Array Int Val))`,
    `(declare-fun olen (Int) Int)`,
    `(declare-fun otag (Val) String)`,
    `(declare-fun oprop (Val Val) Val)`,
    `(declare-fun ohas (Val Val) Bool)`,
    `(declare-fun oown (Val Val) Bool)`,
    `(declare-fun oproto (Val) Val)`,
    `(declare-fun okeys (Val) (JSeq String))`,
    `(declare-fun onames (Val) (JSeq String))`,
    `(declare-fun osyms (Val) (JSeq Val))`,
    `(declare-fun oallkeys (Val) (JSeq Val))`,
    `(define-fun jstag ((v Val)) String (ite ((_ is VUndef) v) "Undefined" (ite ((_ is VNull) v) "Null" (ite ((_ is VBool) v) "Boolean" (ite (or ((_ is VInt) v) ((_ is VFp) v)) "Number" (ite ((_ is VStr) v) "String" (ite ((_ is VBig) v) "BigInt" (ite ((_ is VSym) v) "Symbol" (ite (and ((_ is VObj) v) (oisarr (vo v))) "Array" (otag v))))))))))`,
    `(define-fun jskind ((v Val)) String (ite ((_ is VUndef) v) "undefined" (ite ((_ is VNull) v) "null" (ite ((_ is VBool) v) "boolean" (ite ((_ is VInt) v) "int" (ite ((_ is VFp) v) "double" (ite ((_ is VStr) v) "string" (ite ((_ is VBig) v) "bigint" (ite ((_ is VSym) v) "symbol" (ite ((_ is VFn) v) "function" (ite (oisarr (vo v)) "array" "object")))))))))))`,
    // promises / thenables as seen by await
    `(declare-fun thenable0 (Val) Bool)`,
    `(define-fun thenable ((v Val)) Bool (and (or ((_ is VObj) v) ((_ is VFn) v)) (thenable0 v)))`,
    `(declare-fun presolved (Val) Val)`,
    `(declare-fun prejects (Val) Bool)`,
    `(declare-fun preason (Val) Val)`,
    `(define-fun awres ((v Val)) Val (ite (thenable v) (presolved v) v))`,
    `(define-fun awrej ((v Val)) Bool (and (thenable v) (prejects v)))`,
    // strings
    `(declare-fun strim (String) String)`,
    `(declare-fun slower (String) String)`,
    `(declare-fun supper (String) String)`,
    `(declare-fun num2str (Int) String)`,
    `(declare-fun val2str (Val) String)`,
    `(declare-fun str2num (String) Val)`
];

const V = {
    undef: { t: 'undef' }, nul: { t: 'null' },
    bool: e => ({ t: 'bool', e }), int: e => ({ t: 'int', e: String(e) }), real: (e, q) => ({ t: 'real', e, q }),
    fp: (e, c) => ({ t: 'fp', e, c }), str: e => ({ t: 'str', e }), big: e => ({ t: 'big', e }), sym: e => ({ t: 'sym', e }),
    val: e => ({ t: 'val', e }), obj: e => ({ t: 'obj', e }), ofn: e => ({ t: 'ofn', e }), ref: id => ({ t: 'ref', id }),
    num: x => (Number.isSafeInteger(x) && !Object.is(x, -0) ? V.int(intLit(x)) : V.fp(fpLit(x), x)),
    lit: s => V.str(strLit(s))
};
// SMT sort of an element descriptor: 'val'|'int'|'str'|'bool'|'fp'|{seq:elem}
function sortOf(el) {
    if (typeof el === 'object') return `(JSeq ${sortOf(el.seq)})`;
    return { val: 'Val', int: 'Int', str: 'String', bool: 'Bool', fp: FP, real: 'Real' }[el];
}
const sameElem = (a, b) => JSON.stringify(a) === JSON.stringify(b);

module.exports = { SAFE, isNumLit, litVal, intLit, and, or, not, implies, eq, ite, add, sub, mul, cmp, strLit, isLit, unLit, fpLit, FP, PRELUDE, V, sortOf, sameElem };
