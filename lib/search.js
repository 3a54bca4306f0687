'use strict';
const { Worker } = require('worker_threads');
const path = require('path');
const fs = require('fs');
const { ts, REPO } = require('./loader');
// numeric and string literals of the sources involved, as input hints
function mine(files) {
    const num = new Set(), str = new Set();
    for (const f of files) {
        let text; try { text = fs.readFileSync(path.join(REPO, f), 'utf8'); } catch { continue; }
        const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true);
        const v = n => { if (ts.isNumericLiteral(n) && str.size + num.size < 400) { const x = Number(n.text); if (Number.isSafeInteger(x)) { num.add(x); num.add(-x); } } else if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && !ts.isImportDeclaration(n.parent) && n.text.length < 40 && !/[\u4e00-\u9fff]{3}/.test(n.text) && str.size < 200) str.add(n.text); ts.forEachChild(n, v); };
        v(sf);
    }
    return { num: [...num], str: [...str] };
}
function search(c, opts) {
    return new Promise(resolve => {
        const progress = new SharedArrayBuffer(8), pv = new Int32Array(progress);
        const w = new Worker(path.join(__dirname, 'search-worker.js'), { workerData: { contractFile: opts.contractFile, id: c.id, bundle: opts.bundle, progress, seed: opts.seed, ms: opts.ms, max: opts.max || 1e9, models: opts.models || [], consts: opts.consts, only: opts.only }, resourceLimits: { maxOldGenerationSizeMb: 1500, stackSizeMb: 4 }, stdout: false, stderr: false });
        let last = -1, lastT = Date.now(), done = false;
        const fin = r => { if (done) return; done = true; clearInterval(iv); w.terminate(); resolve(r); };
        const iv = setInterval(() => {
            const k = pv[0]; if (k !== last) { last = k; lastT = Date.now(); return; }
            if (pv[1] > 0 && Date.now() - lastT > (opts.hangMs || 12000)) fin({ found: { case: k, clause: 'terminates', why: 'the call did not return within ' + (opts.hangMs || 12000) / 1000 + ' s' }, ran: k });
            if (Date.now() - lastT > 60000) fin({ found: null, ran: k, stuck: true });
        }, 250);
        w.on('message', m => fin(m));
        w.on('error', e => { const k = pv[0]; if (e.code === 'ERR_WORKER_OUT_OF_MEMORY') fin({ found: { case: k, clause: 'terminates', why: 'heap exhausted (1.5 GB) during the call' }, ran: k }); else fin({ found: null, ran: k, error: String(e.stack || e) }); });
        w.on('exit', () => fin({ found: null, ran: pv[0], error: 'worker exited' }));
    });
}
module.exports = { search, mine };
