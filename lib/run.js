'use strict';
// node lib/run.js <property> [quick|thorough]
const fs = require('fs');
const os = require('os');
const path = require('path');
const cp = require('child_process');
const { bundle, entriesOf } = require('./bundle');
const { search, mine } = require('./search');
const ROOT = path.dirname(__dirname);
const PROP = process.argv[2], TIER = process.argv[3] || process.env.VERIF_TIER || 'quick';
const SEED = Number(process.env.VERIF_SEED || 1) || 1;
const T0 = Date.now();
const CAP = (TIER === 'thorough' ? 840 : 780) * 1000;

const { list, byId } = require('./all');
const all = list.filter(({ c }) => [].concat(c.property).includes(PROP));
for (let i = 0; i < all.length; i++) for (const id of all[i].c.calls || []) if (!all.some(j => j.c.id === id)) all.push(list.find(j => j.c.id === id)); // contracts relied upon at call sites
if (!all.length) { console.error('no contracts for ' + PROP); process.exit(2); }
const REPLAY = path.join(ROOT, 'evidence', 'replay'); fs.mkdirSync(REPLAY, { recursive: true });
for (const f of fs.readdirSync(REPLAY)) if (f.startsWith(PROP + '-')) fs.unlinkSync(path.join(REPLAY, f));
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'vrun-'));
const cleanup = () => { try { fs.rmSync(tmp, { recursive: true, force: true }); } catch {} };
process.on('exit', cleanup);
process.env.TMPDIR = tmp; // scratch directories of the runs

async function verifyIn(job, budget, slow) {
    let r; for (let i = 0; i < 2; i++) { r = await verifyOnce(job, budget, slow); if (!r.crashed) break; }
    return r;
}
function verifyOnce(job, budget, slow) {
    return new Promise(res => {
        const ch = cp.fork(path.join(__dirname, 'verify-child.js'), [], { execArgv: ['--stack-size=4000', '--max-old-space-size=3000'], stdio: ['ignore', 'ignore', 'pipe', 'ipc'], env: { ...process.env, TMPDIR: tmp, ...(slow ? { VERIF_SLOWX: String(slow) } : {}) } });
        let err = ''; ch.stderr.on('data', d => { err = (err + d).slice(-3000); });
        let done = false; const fin = r => { if (done) return; done = true; clearTimeout(t); try { ch.kill('SIGKILL'); } catch {} res(r); };
        const fail = (nm, d) => ({ id: job.c.id, status: 'failed', obligations: [{ name: `${job.c.id}:${nm}`, status: 'unknown', detail: d }], assumptions: [], functions: [], loops: [] });
        const t = setTimeout(() => fin(fail('in-budget', 'verifier stopped after ' + Math.round(budget / 1000 + 30) + ' s')), budget + 30000);
        ch.on('message', fin); ch.on('close', () => setTimeout(() => fin({ ...fail('verifier', 'verifier process ended: ' + err), crashed: true }), 50));
        ch.send({ contractFile: job.file, id: job.c.id, opts: { budget, ...(TIER === 'thorough' ? { timeout: 8000, slowTimeout: 25000 } : {}) } });
    });
}
async function pool(jobs, n, f) { const out = []; let i = 0; await Promise.all(Array.from({ length: n }, async () => { while (i < jobs.length) { const k = i++; out[k] = await f(jobs[k], k); } })); return out; }
const known = (() => { try { return fs.readFileSync(path.join(ROOT, 'known-findings.txt'), 'utf8').split('\n').map(l => l.trim()).filter(l => l && !l.startsWith('#')); } catch { return []; } })();

(async () => {
    const entries = all.flatMap(j => entriesOf(j.c));
    const bfile = path.join(tmp, 'bundle.js');
    let buildErr = null;
    try { await bundle(entries, bfile); } catch (e) { buildErr = String(e.message || e).slice(0, 2000); }
    const violations = [], knownHits = [];
    const reps = await pool(all, 7, async job => {
        const c = job.c;
        const left = CAP - (Date.now() - T0);
        const budget = Math.max(5000, Math.min(c.budget || (TIER === 'thorough' ? 300000 : 150000), left - 120000));
        const rep = c.bounded ? { id: c.id, status: 'bounded', obligations: [], assumptions: [], functions: [], loops: [] } : await verifyIn(job, budget);
        const bad = rep.obligations.filter(o => o.status !== 'proved');
        let s = { found: null, ran: 0 };
        if (!buildErr) {
            const models = bad.map(o => o.model).filter(Boolean);
            const files = [c.file, ...Object.values(c.uses || {}).map(u => typeof u === 'string' ? u : u.file), ...(rep.functions || []).map(k => k.split('#')[0]), ...(c.hints || [])].filter(Boolean);
            const ms = c.bounded && c.runMs ? (TIER === 'thorough' ? c.runMs * 8 : c.runMs) : bad.length || c.bounded ? Math.max(3000, Math.min(TIER === 'thorough' ? 120000 : 40000, CAP - (Date.now() - T0) - 30000)) : (TIER === 'thorough' ? 20000 : c.runMs || 1500);
            const o = { contractFile: job.file, bundle: bfile, seed: SEED, ms, max: c.bounded && c.runMax && TIER !== 'thorough' ? c.runMax : bad.length || c.bounded ? 1e9 : TIER === 'thorough' ? 1e9 : c.runMax || 1500, models, consts: mine(new Set(files)), hangMs: c.hangMs };
            s = await search(c, o);
            if (s.found && s.found.clause === 'terminates' && !s.found.args) { /* hang: the input is identified by its case number */ }
        } else s.error = buildErr;
        rep.search = s;
        return rep;
    });
    // obligations left open without a failing input get a second, slower attempt with the machine to themselves
    const again = reps.map((r, i) => ({ r, i })).filter(({ r, i }) => r.status === 'failed' && (!r.search.found || r.search.found.harness) && r.obligations.some(o => o.status !== 'proved' && o.status !== 'unsupported'));
    await pool(again, 2, async ({ r, i }) => {
        const left = CAP - (Date.now() - T0) - 40000; if (left < 60000) return;
        const b = await verifyIn(all[i], Math.min(left, 300000), 3);
        if (b.status === 'proved') reps[i] = { ...b, search: r.search, second: true };
    });
    reps.forEach((rep, ri) => {
        const c = all[ri].c, s = rep.search, bad = rep.obligations.filter(o => o.status !== 'proved');
        if (s.found && s.found.harness) { s.error = s.found.why; s.found = null; }
        const replay = path.join(REPLAY, `${PROP}-${c.id}.json`);
        const fails = [];
        if (s.found) fails.push({ key: `${PROP}:${c.id}:${s.found.clause}`, input: true });
        else if (rep.status === 'failed' || rep.status === 'empty') fails.push({ key: `${PROP}:${c.id}:${bad.map(o => o.name.split(':')[1])[0] || 'empty'}`, input: false });
        for (const f of fails) {
            const kf = known.find(l => l.startsWith(`known: ${f.key} `));
            if (kf) { knownHits.push(kf); rep.known = true; continue; }
            fs.writeFileSync(replay, JSON.stringify({ property: PROP, contract: c.id, file: c.file || c.uses, kind: f.input ? 'failing-input' : 'undischarged-obligation', case: s.found && s.found.case, seed: SEED, failing: s.found, failed_obligations: bad.slice(0, 12), verifier: rep.smt, replay_cmd: f.input ? `node ${path.join(ROOT, 'lib/replay.js')} ${replay}` : undefined, search: { executed: s.executed, error: s.error } }, null, 1));
            violations.push({ replay, input: f.input, c, clause: s.found ? s.found.clause : f.key.split(':')[2], bad });
        }
    });
    // ---- report
    const obls = reps.flatMap(r => r.obligations);
    const by = {}; for (const r of reps) for (const [k, v] of Object.entries((r.smt || {}).by || {})) by[k] = (by[k] || 0) + v;
    for (const o of obls) if (o.status === 'proved' && (o.by === 'evaluation' || o.by === 'syntactic' || !o.by)) by['generator (decided during VC generation or by the loop fixpoint)'] = (by['generator (decided during VC generation or by the loop fixpoint)'] || 0) + 1;
    const assumptions = new Set(['machine arithmetic: integral numbers are exact mathematical integers (|n| <= 2^53-1 for inputs; sums and products of lengths and indices are assumed not to exceed 2^53)', 'arrays handed to the functions are dense and their elements are not accessors; host built-ins have their ECMAScript meaning as encoded in lib/builtins.js']);
    for (const r of reps) for (const a of r.assumptions || []) assumptions.add(a);
    for (const j of all) for (const a of j.c.assumes || []) assumptions.add(`${j.c.id}: ${a}`);
    const functions = [...new Set(reps.flatMap(r => r.functions || []))];
    const prov = obls.filter(o => o.status === 'proved').length;
    const bounded = all.filter(j => j.c.bounded).map(j => ({ contract: j.c.id, bound: j.c.bounded }));
    const ev = {
        property: PROP, tier: TIER === 'thorough' ? 'thorough' : 'quick', seed: SEED, level: bounded.length === all.length ? 'exploration' : 'proof',
        coverage: {
            obligations: obls.length, discharged: prov, checker_cmd: `node lib/run.js ${PROP} ${TIER}`,
            trusted_base: ['lib/engine.js, lib/exec.js, lib/builtins.js, lib/loops.js (VC generator over the TypeScript AST of /repo)', 'z3 (z3-new), cvc5', 'contracts/*.js as the statement of the property'],
            functions_under_contract: functions, contracts: reps.map(r => ({ id: r.id, status: r.status, obligations: r.obligations.length, wall_ms: r.wall, loops: r.loops, concrete_runs: r.search && r.search.executed, cases: r.search && r.search.ran })),
            discharged_by: by, solver_ms: reps.reduce((a, r) => a + ((r.smt || {}).ms || 0), 0), solver_queries: reps.reduce((a, r) => a + ((r.smt || {}).queries || 0), 0),
            bounded_stand_ins: bounded, undischarged: obls.filter(o => o.status !== 'proved').map(o => ({ name: o.name, status: o.status })).slice(0, 40),
            runtime_cross_check: reps.reduce((a, r) => a + ((r.search || {}).executed || 0), 0)
        },
        assumptions: [...assumptions], wall_s: Math.round((Date.now() - T0) / 100) / 10,
        violations: violations.map(v => ({ replay: v.replay, contract: v.c.id, clause: v.clause, failing_input: v.input }))
    };
    fs.writeFileSync(path.join(ROOT, 'evidence', PROP + '.json'), JSON.stringify(ev, null, 1));
    for (const r of reps) console.log(`${r.status === 'proved' ? 'ok  ' : r.status === 'bounded' ? 'bnd ' : 'FAIL'} ${r.id}: ${r.obligations.filter(o => o.status === 'proved').length}/${r.obligations.length} obligations, ${r.search ? r.search.executed : 0} concrete runs${r.search && r.search.error ? ' (runs: ' + r.search.error.slice(0, 200) + ')' : ''}`);
    for (const k of new Set(knownHits)) { const m = /^known: (\S+):(\S+):(\S+) (.*)$/.exec(k); console.log(`KNOWN-FINDING: property=${PROP} ${m ? m[4] : k}`); }
    for (const v of violations) {
        const o = v.bad[0];
        console.log(`  ${v.c.id}: ${v.clause}${o ? ' — obligation ' + o.name + ' ' + o.status + (o.detail ? ' (' + String(o.detail).slice(0, 200) + ')' : '') : ''}`);
        console.log(`VIOLATION property=${PROP} replay=${v.replay}${v.input ? '' : ' no-failing-input-found'}`);
    }
    console.log(`${PROP}: ${prov}/${obls.length} obligations discharged, ${violations.length} violations, ${ev.wall_s} s`);
    // a stand-in that could not be run at all has decided nothing
    const idle = reps.filter(r => r.status === 'bounded' && !(r.search && r.search.executed) && !r.known && !violations.some(v => v.c.id === r.id));
    if (idle.length && !violations.length) console.error(`${PROP}: no answer for ${idle.map(r => r.id).join(', ')}`);
    process.exitCode = violations.length ? 1 : idle.length ? 2 : 0;
    cleanup(); process.exit();
})().catch(e => { console.error(e); process.exit(2); });
