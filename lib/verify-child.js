'use strict';
const { verify } = require('./verify');
process.on('message', m => {
    const { byId } = require('./all');
    const c = byId[m.id];
    let r; try { r = verify(c, { ...m.opts, lib: byId }); } catch (e) { r = { id: m.id, status: 'failed', obligations: [{ name: m.id + ':internal', status: 'unknown', detail: String(e.stack).slice(0, 1500) }], assumptions: [], functions: [], loops: [] }; }
    process.send(r); // the parent ends this process once it has the report
    setTimeout(() => process.exit(0), 60000).unref();
});
