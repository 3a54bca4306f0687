'use strict';
// Stands in for 'http' and 'https' when the real code runs under a check:
// nothing leaves the process. In mode 'net' a request is recorded and answered
// from the list S.answers; in every other mode it is refused.
const S = require('./env').$;
const { EventEmitter } = require('events');
const { Readable } = require('stream');
const make = (proto, real) => ({
    ...real,
    request(config, cb) {
        if (S.mode !== 'net') throw Object.assign(new Error('EACCES: request'), { code: 'EACCES' });
        const seen = { proto, hostname: config.hostname, port: config.port, path: config.path, method: config.method, auth: config.auth, headers: { ...config.headers }, keys: Object.keys(config), body: null };
        const req = Object.assign(new EventEmitter(), { destroyed: false, protocol: proto + ':', host: config.hostname, path: config.path, method: config.method, destroy() { req.destroyed = true; if (req.answer && !req.answer.readableEnded) req.answer.destroy(); return req; } });
        req.end = body => {
            seen.body = body === undefined ? null : Buffer.from(body);
            setImmediate(() => {
                const a = S.answers[Math.min(S.sent.length - 1, S.answers.length - 1)];
                if (a.error) { req.emit('error', a.error); return; }
                const res = Object.assign(Readable.from(a.chunks || [], { objectMode: false }), { statusCode: a.status, statusMessage: a.message || 'M', headers: { ...a.headers }, method: null, req });
                req.answer = res;
                try { cb(res); } catch (e) { S.crashes.push(e); req.emit('error', e); }
            });
            return req;
        };
        S.sent.push(seen);
        return req;
    },
});
module.exports = { http: make('http', require('http')), https: make('https', require('https')) };
