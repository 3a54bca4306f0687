// node lib/dev.js <contractfile|property> [id...] [-d]
const { verify } = require('./verify');
const { list, byId } = require('./all');
const cp = require('child_process');
const path = require('path');
const dbg = process.argv.includes('-d');
const ids = process.argv.slice(3).filter(x => !x.startsWith('-'));
const sel = list.filter(({ c, file }) => (path.basename(file) === path.basename(process.argv[2]) || [].concat(c.property).includes(process.argv[2])) && (!ids.length || ids.includes(c.id)));
function show(r, ms) {
    const by = {};
    for (const o of r.obligations) { const k = o.name + ' ' + o.status; by[k] = (by[k] || 0) + 1; }
    console.log(`== ${r.id} ${r.status} ${ms}ms obls=${r.obligations.length} q=${r.smt && r.smt.queries}`);
    if (r.status !== 'proved' || dbg) { for (const k in by) console.log('   ', k, by[k]); for (const o of r.obligations.filter(o => o.status !== 'proved').slice(0, 4)) console.log('   !', o.name, o.status, (o.detail || o.goal || '').slice(0, 700), JSON.stringify(o.model)); }
    const slow = r.obligations.filter(o => o.ms > 800); if (slow.length) console.log('   slow:', slow.map(o => o.name.split(':')[1] + ' ' + o.ms + ' ' + o.by).join(', '));
    if (dbg) console.log(r.loops, r.assumptions, r.functions);
}
if (sel.length === 1) { const t = Date.now(); show(verify(sel[0].c, { debug: dbg, dump: dbg ? '/tmp/w/dump.smt2' : null, lib: byId }), Date.now() - t); }
else (async () => {
    let i = 0;
    await Promise.all(Array.from({ length: 7 }, async () => {
        while (i < sel.length) {
            const { c, file } = sel[i++]; const t = Date.now();
            await new Promise(res => { const ch = cp.fork(path.join(__dirname, 'verify-child.js'), [], { execArgv: ['--stack-size=4000', '--max-old-space-size=3000'] }); let got; ch.on('message', r => { got = 1; show(r, Date.now() - t); ch.kill(); }); ch.on('close', () => { if (!got) console.log('== ' + c.id + ' CRASHED'); res(); }); ch.send({ contractFile: file, id: c.id, opts: {} }); });
        }
    }));
})();
