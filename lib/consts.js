'use strict';
// Values of module-level constants that are texts or patterns built by
// expressions: the module itself is run, once, and its constants are read.
// node lib/consts.js FILE NAME...   prints them as JSON
const path = require('path'), cp = require('child_process'), fs = require('fs'), os = require('os');
const memo = new Map();
function constants(file, names) {
    if (!memo.has(file)) {
        let r = {};
        try { r = JSON.parse(cp.execFileSync(process.execPath, [__filename, file, ...names], { encoding: 'utf8', timeout: 30000, stdio: ['ignore', 'pipe', 'ignore'], maxBuffer: 1 << 26 })); } catch { }
        memo.set(file, r);
    }
    return memo.get(file);
}
if (require.main === module) (async () => {
    const [file, ...names] = process.argv.slice(2), { bundle } = require('./bundle');
    const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'vcon-')), out = path.join(tmp, 'b.js');
    let text = '{}';
    try {
        await bundle([{ key: 'k', file, export: 'verifPeek' }], out, { file, names });
        const o = require(out).k(), r = {};
        for (const n of names) { const v = o[n]; if (v instanceof RegExp) r[n] = { re: `/${v.source}/${v.flags}` }; else if (typeof v === 'string') r[n] = { str: v }; }
        text = JSON.stringify(r);
    } catch { } finally { fs.rmSync(tmp, { recursive: true, force: true }); }
    process.stdout.write(text, () => process.exit(0));
})();
module.exports = { constants };
