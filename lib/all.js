'use strict';
// every contract, by identifier
const fs = require('fs');
const path = require('path');
const DIR = path.join(path.dirname(__dirname), 'contracts');
const list = [], byId = Object.create(null);
for (const f of fs.readdirSync(DIR).sort()) {
    if (!f.endsWith('.js')) continue;
    const file = path.join(DIR, f);
    for (const c of require(file)) { if (byId[c.id]) throw new Error('duplicate contract ' + c.id); byId[c.id] = c; list.push({ c, file }); }
}
module.exports = { list, byId };
