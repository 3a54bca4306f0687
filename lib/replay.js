'use strict';
// node lib/replay.js <replay.json>: runs the recorded failing case on the real code again
const fs = require('fs'), os = require('os'), path = require('path');
const { bundle, entriesOf } = require('./bundle'); const { search, mine } = require('./search');
(async () => {
    const r = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
    const dir = path.join(path.dirname(__dirname), 'contracts');
    for (const f of fs.readdirSync(dir)) { const file = path.join(dir, f); const c = require(file).find(x => x.id === r.contract); if (!c) continue;
        const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'vrep-')); const b = path.join(tmp, 'b.js'); await bundle(entriesOf(c), b);
        const files = [c.file, ...Object.values(c.uses || {}).map(u => typeof u === 'string' ? u : u.file)].filter(Boolean);
        const s = await search(c, { contractFile: file, bundle: b, seed: r.seed, ms: 60000, models: (r.failed_obligations || []).map(o => o.model).filter(Boolean), consts: mine(new Set(files)), only: undefined, max: r.case + 1 });
        fs.rmSync(tmp, { recursive: true, force: true }); console.log(JSON.stringify(s, null, 1)); process.exit(s.found ? 1 : 0); }
    process.exit(2);
})();
