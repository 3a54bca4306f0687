'use strict';
// Rewrites the generated sections of DESIGN.md from the contracts, the findings file and the planted bugs.
const fs = require('fs'), path = require('path');
const R = path.dirname(__dirname);
const { list } = require('../lib/all');
const props = fs.readFileSync(R + '/properties.jsonl', 'utf8').trim().split('\n').map(l => JSON.parse(l));
const M = JSON.parse(fs.readFileSync(R + '/MANIFEST.json', 'utf8'));
const some = (a, n = 12) => a.slice(0, n).join(', ') + (a.length > n ? `, … (${a.length} in all)` : '');
const out = props.map(p => {
    const cs = list.map(x => x.c).filter(c => [].concat(c.property).includes(p.id));
    const pr = cs.filter(c => !c.bounded), bd = cs.filter(c => c.bounded);
    const na = (M.not_applicable || []).find(x => x.property === p.id || x.id === p.id || x.property_id === p.id);
    if (na) return `* **${p.id} ${p.title}.** Not applicable: ${na.reason}`;
    return `* **${p.id} ${p.title}.** ${pr.length ? `Contracts proved for all inputs: ${some(pr.map(c => c.id))}.` : 'No contract is proved.'}${bd.length ? ` Bounded stand-ins, never counted as proved: ${some(bd.map(c => `${c.id} (${c.bounded})`), 20)}.` : ''}`;
}).join('\n');
const seeds = fs.readdirSync(R + '/seeded').sort().map(id => { const m = JSON.parse(fs.readFileSync(`${R}/seeded/${id}/meta.json`, 'utf8')); return `| ${id} | ${m.property} | ${m.needs.replace(/\|/g, '/').replace(/\s+/g, ' ').slice(0, 160)} |`; }).join('\n');
const known = fs.readFileSync(R + '/known-findings.txt', 'utf8').split('\n').filter(l => /^(fixed|known):/.test(l)).map(l => '* ' + l).join('\n');
let d = fs.readFileSync(R + '/DESIGN.md', 'utf8');
const sect = (name, body) => { const re = new RegExp(`(<!-- ${name} -->\\n)[\\s\\S]*?(<!-- /${name} -->)`); if (!re.test(d)) throw new Error(name); d = d.replace(re, (_, a, b) => a + body + '\n' + b); };
sect('properties', out); sect('findings', known); sect('seeds', '| planted bug | reported by the check of | needs |\n|---|---|---|\n' + seeds);
fs.writeFileSync(R + '/DESIGN.md', d);
