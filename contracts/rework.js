'use strict';
const { T } = require('../lib/types');
const Sf = 'packages/string/src/', C = module.exports = [];
const raw = () => ({ ...T.tok() });
const CH = [...'ab1 ,.()\u4e2d\u6587\u3002\uff0c\u3000\uff01\uff1f\uff1a\uff1b\uff08\uff09\uff21\uff5a\uff10\uff19\uff5e\uff5f\uff00\uff02\uff0e\uffe5', '\ud83d\ude00', '\ud83d', '\ue001'];
const text = (r, n) => Array.from({ length: r.int(n) }, () => r.pick(CH)).join('');

// ---- S08: text reworked ----------------------------------------------------
const KEPT = '\uff0c\uff1f\uff01\uff1a\uff1b\uff08\uff09';
const half = c => (KEPT.includes(c) ? c : c === '\u3000' ? ' ' : c >= '\uff01' && c <= '\uff5e' ? String.fromCharCode(c.charCodeAt(0) - 0xfee0) : c);
C.push({
    id: 'halfWidth', property: 'S08', file: Sf + 'corrector/basic/fullWith.ts', bounded: 'generated texts of up to 14 characters, and every full-width form', runMs: 5000, runMax: 40000,
    params: { value: { ...T.str(), gen: r => (r.bool(0.02) ? Array.from({ length: 256 }, (_, i) => String.fromCharCode(0xff00 + i)).join('') : text(r, 15)) } },
    ensures: { 'each-full-width-character-alone-changes': ({ value, result }) => result === value.split('').map(half).join('') },
});
const PUNCT = /[\p{P}\p{S} ]/u;
const PATS = ['\\d', '\\d+', '[ab]', 'a|1', '(?<n>1)', '(?<n>a)|(b)', '(\\d)(?=a)', '\u4e2d', '(a)(b)?', '\ud83d\ude00'];
C.push({
    id: 'subSpaces', property: 'S08', uses: { subSpaces: Sf + 'spaces/subSpaces.ts' }, bounded: 'generated patterns (with and without groups, named ones too) over texts of up to 14 characters', runMs: 6000, runMax: 40000,
    drive: '(value, source, flags, wrap) => { const calls = []; const out = wrap ? subSpaces(value, new RegExp(source, flags), (s, m) => { calls.push([s, m[0], m.length]); return "<" + s + ">"; }) : subSpaces(value, new RegExp(source, flags)); return { out, calls }; }',
    params: { value: raw(), source: raw(), flags: raw(), wrap: T.bool() },
    gen: r => [Array.from({ length: r.int(15) }, () => r.pick([...'ab11 ab,.\u4e2d\uff0c(', '\ud83d\ude00'])).join(''), r.pick(PATS), r.pick(['', 'g', 'g', 'gi', 'gu']), r.bool()],
    ensures: {
        'one-space-between-a-match-and-a-neighbour-that-is-no-punctuation-or-space': ({ value, source, flags, wrap, result }) => {
            const all = [...value.matchAll(new RegExp(source, flags.includes('g') ? flags : flags + 'g'))].slice(0, flags.includes('g') ? undefined : 1); let out = '', at = 0;
            for (const m of all) { const l = value[m.index - 1], e = m.index + m[0].length, x = value[e], s = wrap ? `<${m[0]}>` : m[0]; out += value.slice(at, m.index) + (l && !PUNCT.test(l) ? ' ' : '') + s + (x && !PUNCT.test(x) ? ' ' : ''); at = e; }
            return result.out === out + value.slice(at);
        },
        'the-handler-gets-every-match-once': ({ value, source, flags, wrap, result }) => { const all = [...value.matchAll(new RegExp(source, flags.includes('g') ? flags : flags + 'g'))].slice(0, flags.includes('g') ? undefined : 1); return !wrap ? result.calls.length === 0 : result.calls.length === all.length && result.calls.every((c, i) => c[0] === all[i][0] && c[1] === all[i][0]); },
    },
});
C.push({
    id: 'matchOrder', property: 'S08', file: Sf + 'match/matchOrder.ts', bounded: 'up to four generated patterns over short texts', runMs: 5000, runMax: 40000,
    params: { str: { ...T.str(), gen: r => Array.from({ length: r.int(7) }, () => r.pick([...'ab1 ,\u4e2d'])).join('') }, regexps: { ...raw(), gen: r => Array.from({ length: r.int(5) }, () => new RegExp(r.pick([...PATS, '^', 'zz', 'b$', '']), r.pick(['', 'g', 'i', 'u', 'm']))) } },
    ensures: { 'the-match-of-the-first-pattern-that-occurs': ({ str, regexps, result }) => { let w = null; if (str !== '') for (const x of regexps) { w = str.match(new RegExp(x.source, x.flags)); if (w) break; } return w === null ? result === null : result !== null && JSON.stringify([...result]) === JSON.stringify([...w]) && result.index === w.index; } },
});
C.push({
    id: 'parseJson', property: 'S08', uses: { parseJson: Sf + 'parseJson.ts' }, bounded: 'generated JSON texts, some of them damaged, with and without a reviver', runMs: 5000, runMax: 30000,
    drive: 'async (text, revive) => { const seen = []; try { return { ok: true, v: await parseJson(text, revive ? function (k, v) { seen.push(k); return typeof v === "number" ? v + 1 : v; } : undefined), seen }; } catch (e) { return { ok: false, failed: e !== undefined && e !== null, seen }; } }',
    params: { text: raw(), revive: T.bool() },
    gen: r => { const v = d => r.pick([() => r.int(100) / 4, () => text(r, 4), () => null, () => r.bool(), () => (d > 2 ? 1 : Array.from({ length: r.int(3) }, () => v(d + 1))), () => (d > 2 ? 2 : Object.fromEntries(Array.from({ length: r.int(3) }, () => [r.pick(['a', 'b', '__proto__', 'then', '']), v(d + 1)])))])(); let t = JSON.stringify(v(0)); if (r.bool(0.3)) { const i = r.int(t.length + 1); t = t.slice(0, i) + r.pick(['', ',', '}', '"', 'x']) + t.slice(i + r.int(2)); } return [t, r.bool(0.4)]; },
    ensures: { 'the-value-or-a-failure': ({ text: t, revive, result }) => { let w, ok = true; const seen = []; try { w = JSON.parse(t, revive ? function (k, v) { seen.push(k); return typeof v === 'number' ? v + 1 : v; } : undefined); } catch { ok = false; } if (result.ok !== ok || JSON.stringify(seen) !== JSON.stringify(result.seen)) return false; if (!ok) return result.failed; try { require('assert').deepStrictEqual(result.v, w); return true; } catch { return false; } } },
});
