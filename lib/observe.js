'use strict';
// Concrete observation helpers: scheduling facts read off a recorded run.
const { traces } = require('./speclib');
const calls = f => traces.get(f).calls;
// every callback after the first started when the previous one's promise had settled
const settledBefore = f => calls(f).every((c, k) => k === 0 || c.prevSettled !== false);
// every callback started in the same turn of the job queue as the first
const startedTogether = f => calls(f).every(c => c.turn === calls(f)[0].turn);
module.exports = { settledBefore, startedTogether };
