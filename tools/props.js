'use strict';
// Source of properties.jsonl and MANIFEST.json:  node tools/props.js
const fs = require('fs');
const path = require('path');
const ROOT = path.dirname(__dirname);
const { list } = require('../lib/all');
const P = [];
const p = (id, title, statement, over, text, why, files, mech, extra = {}) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mech.map(([name, where]) => ({ name, where })) }, ...extra });
const A = 'packages/array/src/', F = 'packages/function/src/', S = 'packages/string/src/', Ty = 'packages/types/src/', O = 'packages/object/src/', N = 'packages/number/src/', Ck = 'packages/cookie/src/', Fs = 'packages/fs/src/';

p('A01', 'Splitting an array into chunks partitions it', 'Splitting an array by step or into a number of chunks yields chunks that, read in order, are exactly the elements of the input, each exactly once and in place; every chunk has the size its position calls for, and the number of chunks is the one requested. Anything that is not a positive size is rejected with a TypeError and nothing else is.', ['inputs'], 'all dense arrays of any length and content, all numbers as the step/length, every padding mode', 'the tests compare a handful of short literal arrays; sizes, remainders and padding positions form an unbounded product', [A + 'splitByStep.ts', A + 'splitChunk.ts'], [['loop that slices consecutive windows', A + 'splitByStep.ts'], ['remainder distribution over head or tail', A + 'splitChunk.ts']]);
p('A02', 'Array iteration helpers visit every element once, in order, and align results', 'The each/map helpers call the callback with (element, index, array) for every index exactly once in their documented direction; the each forms stop early only on a result of exactly true, the map forms return the callback results aligned with the visiting order. The sequential async forms start the next callback only after the previous result has settled, the parallel forms start all of them before waiting, and an exception or rejection of a callback is what the caller gets.', ['inputs', 'schedules', 'fault_sequences'], 'all arrays, all callbacks (any return value, any throw or rejection at any call, any settlement order)', 'tests use three-element arrays, callbacks that settle in a fixed order and never fail midway', [A + 'each/each.ts', A + 'each/eachAsync.ts', A + 'each/eachParallel.ts', A + 'each/eachRight.ts', A + 'each/eachRightAsync.ts', A + 'each/eachRightParallel.ts', A + 'map/mapAsync.ts', A + 'map/mapParallel.ts', A + 'map/mapRight.ts', A + 'map/mapRightAsync.ts', A + 'map/mapRightParallel.ts'], [['index loops around the callback', A + 'each/each.ts'], ['await inside the loop', A + 'map/mapAsync.ts'], ['Promise.all after the loop', A + 'map/mapParallel.ts']]);

const CHECKED = new Set(list.flatMap(({ c }) => [].concat(c.property)));
const NOTES = {};
const NA = {};
module.exports = { P };
try { require('./props-more')(p, NOTES, NA, { A, F, S, Ty, O, N, Ck, Fs }); } catch (e) { if (e.code !== 'MODULE_NOT_FOUND') throw e; }
const DEFAULT_NOTE = 'Every obligation generated from the TypeScript sources as they are in /repo is discharged by z3/cvc5 for all inputs and all iterations; the same contracts also run against the real code on generated inputs as a cross-check. Trusts the VC generator (lib/), the solvers, and the assumptions listed in the evidence file (integral numbers are exact, callbacks do not mutate their arguments).';
if (require.main === module) {
    fs.writeFileSync(path.join(ROOT, 'properties.jsonl'), P.map(x => JSON.stringify(x)).join('\n') + '\n');
    const checks = P.filter(x => CHECKED.has(x.id)).map(x => {
        const cs = list.filter(({ c }) => [].concat(c.property).includes(x.id)).map(({ c }) => c);
        const bounded = cs.filter(c => c.bounded);
        return { property: x.id, quick_cmd: `node lib/run.js ${x.id} quick`, thorough_cmd: `node lib/run.js ${x.id} thorough`, technique: 'contract-based deductive verification (VC generation over the real TypeScript, z3/cvc5)', level: bounded.length === cs.length || x.id === 'F06' ? 'exploration' : 'proof', level_note: (NOTES[x.id] || DEFAULT_NOTE) + (bounded.length && bounded.length < cs.length ? ` Bounded stand-ins (not proved): ${bounded.map(c => c.id + ' — ' + c.bounded).join('; ')}.` : '') };
    });
    const na = P.filter(x => !CHECKED.has(x.id)).map(x => ({ property: x.id, reason: NA[x.id] || 'not decided yet' }));
    fs.writeFileSync(path.join(ROOT, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node tools/setup.js', checks, not_applicable: na, notes: 'No hooks in /repo. Contracts live in contracts/, the verifier in lib/. See DESIGN.md.' }, null, 1) + '\n');
    for (const x of P) if (x.title.length > 80) console.error('title too long', x.id, x.title.length);
}
