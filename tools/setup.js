'use strict';
// Nothing to build: the verifier is plain JavaScript.  Check the tools it drives.
const cp = require('child_process');
for (const [c, a] of [['z3-new', ['--version']], ['cvc5', ['--version']]]) { const r = cp.spawnSync(c, a, { encoding: 'utf8' }); if (r.status !== 0) { console.error('missing ' + c); process.exit(1); } console.log(r.stdout.split('\n')[0]); }
require('/opt/veriftools/node/node_modules/esbuild'); require('../lib/loader'); console.log(require('../lib/all').list.length + ' contracts');
