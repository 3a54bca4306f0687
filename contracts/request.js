'use strict';
const { T } = require('../lib/types');
const R = 'packages/request/src/request/', C = module.exports = [];
const RQ = { request: R + 'request.ts' };
const NET = 'generated requests against answers from a list; no connection is made';
const HOSTS = ['a.example', 'b.example', '127.0.0.1', '[::1]', 'sub.a.example'];
const word = r => Array.from({ length: 1 + r.int(5) }, () => r.pick([...'abcXYZ0189-_.~'])).join('');
const odd = r => Array.from({ length: r.int(7) }, () => r.pick([...'ab 1&=?#+%/:@$,;[]{}"\'<>|\\^`~!*()\n\t\u4e2d\u00e9', '%41', '\ud83d\ude00'])).join('');
const same2 = (a, b) => { try { require('assert').deepStrictEqual(a, b); return true; } catch { return false; } };
const raw = () => ({ ...T.tok() });
const pathText = r => '/' + Array.from({ length: r.int(4) }, () => word(r)).join('/');
const search = r => (r.bool(0.5) ? '' : '?' + Array.from({ length: 1 + r.int(3) }, () => word(r) + '=' + encodeURIComponent(odd(r))).join('&'));
const leaf = r => r.pick([() => odd(r), () => r.int(1000) - 5, () => r.bool(), () => word(r), () => ({ n: r.int(9), t: odd(r) })])();
const queryOf = r => { const q = {}; for (let i = r.int(5); i > 0; i--) { const k = r.bool(0.7) ? word(r) : odd(r); if (k === '__proto__') continue; q[k] = r.pick([() => leaf(r), () => leaf(r), () => null, () => undefined, () => Array.from({ length: r.int(4) }, () => leaf(r))])(); } return q; };
const headersOf = r => { const h = {}; for (const k of ['X-One', 'x-two', 'Accept', 'content-type', 'Content-Language', 'COOKIE', 'Authorization', 'User-Agent', 'Origin', 'referer', 'Host']) if (r.bool(0.2)) h[k] = k.toLowerCase() === 'content-type' ? 'text/plain' : 'v' + r.int(100); return h; };
const METHODS = ['get', 'GET', 'post', 'Put', 'delete', 'PATCH', 'head', 'options'];
const pairsOf = q => Object.entries(q || {}).flatMap(([k, v]) => (v === null || v === undefined ? [] : [].concat(v).map(x => [k, x !== null && typeof x === 'object' ? JSON.stringify(x) : String(x)])));
const low = h => Object.fromEntries(Object.entries(h || {}).map(([k, v]) => [k.toLowerCase(), v]));
const splitPath = p => { const i = p.indexOf('?'); return i < 0 ? [p, ''] : [p.slice(0, i), p.slice(i + 1)]; };

// ---- Q01: what is sent and what comes back ---------------------------------
C.push({
    id: 'requestSent', property: 'Q01', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET,
    drive: 'async (url, asUrl, options) => { H.answers = [{ status: 200, message: "fine", headers: { "x-a": "1" }, chunks: [Buffer.from("he"), Buffer.from("llo")] }]; const v = url === null ? await request(options) : await request(asUrl ? new URL(url) : url, options); return { sent: H.sent, crashes: H.crashes.length, data: v.data.toString(), status: v.status, text: v.statusText, error: v.error, config: v.config, bytes: Buffer.isBuffer(v.data) }; }',
    params: { url: raw(), asUrl: T.bool(), options: raw() },
    gen: r => {
        const o = {};
        if (r.bool(0.6)) o.method = r.pick(METHODS);
        if (r.bool(0.7)) o.query = queryOf(r);
        if (r.bool(0.6)) o.headers = headersOf(r);
        if (r.bool(0.2)) o.auth = 'u:' + word(r);
        if (r.bool(0.6)) { const creds = r.bool(0.2) ? `${word(r)}:${word(r)}@` : ''; return [`${r.pick(['http', 'https'])}://${creds}${r.pick(HOSTS)}${r.bool(0.3) ? ':' + (1 + r.int(9999)) : ''}${pathText(r)}${search(r)}`, r.bool(0.3), o]; }
        o.hostname = r.pick(HOSTS); if (r.bool(0.8)) o.path = pathText(r) + search(r); if (r.bool(0.6)) o.https = r.bool(); if (r.bool(0.3)) o.port = 1 + r.int(9999);
        return [null, false, o];
    },
    ensures: {
        'one-request-to-that-place': ({ url, options: o, result }) => {
            const s = result.sent[0], u = url === null ? null : new URL(url); if (result.sent.length !== 1 || result.crashes) return false;
            return u ? s.proto + ':' === u.protocol && s.hostname === u.hostname && (s.port === undefined ? '' : String(s.port)) === u.port && splitPath(s.path)[0] === u.pathname
                : s.proto === (o.https === false ? 'http' : 'https') && s.hostname === o.hostname && s.port === o.port && splitPath(s.path)[0] === splitPath(o.path || '/')[0];
        },
        'every-query-value-once-in-order': ({ url, options: o, result }) => same2([...new URLSearchParams(splitPath(result.sent[0].path)[1])], [...new URLSearchParams(url === null ? splitPath(o.path || '/')[1] : new URL(url).search), ...pairsOf(o.query)]),
        'method-in-capitals': ({ options: o, result }) => result.sent[0].method === (o.method || 'get').toUpperCase(),
        'header-names-in-small-letters-and-the-callers-values-win': ({ options: o, result }) => { const h = result.sent[0].headers, w = low(o.headers); return Object.keys(h).every(k => k === k.toLowerCase()) && Object.keys(w).every(k => h[k] === w[k]) && ['accept', 'accept-encoding', 'user-agent', 'connection', 'content-type'].every(k => h[k] !== undefined) && (w.host || h.host === result.sent[0].hostname); },
        'credentials-as-given': ({ url, options: o, result }) => { const u = url === null ? null : new URL(url); return result.sent[0].auth === (o.auth !== undefined ? o.auth : u && u.username ? `${u.username}:${u.password}` : undefined); },
        'no-body-none-sent': ({ result }) => result.sent[0].body === null && result.sent[0].headers['content-length'] === undefined,
        'the-answer-complete': ({ result }) => result.data === 'hello' && result.bytes && result.status === 200 && result.text === 'fine' && result.error === null,
    },
});
C.push({
    id: 'requestBody', property: 'Q01', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET,
    drive: `async (kind, value) => {
        H.answers = [{ status: 200, headers: {}, chunks: [] }];
        const type = kind === 'json' ? 'application/json' : kind === 'fields' || kind === 'form' ? 'multipart/form-data' : kind === 'urlencoded' ? 'application/x-www-form-urlencoded' : null;
        let body = value;
        if (kind === 'bytes') body = new Uint8Array(value); if (kind === 'window') body = new Uint8Array([9, 9, ...value, 7]).subarray(2, 2 + value.length); if (kind === 'buffer') body = Buffer.from(value); if (kind === 'arraybuffer') body = new Uint8Array(value).buffer;
        if (kind === 'form') { body = new FormData(); for (const [k, v, name, mime] of value) if (name === null) body.append(k, v); else body.append(k, new Blob([v], { type: mime }), name); }
        await request('http://a.example/', { method: 'POST', body, headers: type ? { 'Content-Type': type } : {} });
        const s = H.sent[0]; let back = null;
        if (s.body && (kind === 'fields' || kind === 'form')) { back = []; for (const [k, v] of await new Response(s.body, { headers: { 'content-type': s.headers['content-type'] } }).formData()) back.push(typeof v === 'string' ? [k, v, null, null] : [k, await v.text(), v.name, v.type]); }
        return { body: s.body, back, length: s.headers['content-length'], type: s.headers['content-type'], n: H.sent.length };
    }`,
    params: { kind: raw(), value: raw() },
    gen: r => {
        const kind = r.pick(['json', 'urlencoded', 'text', 'bytes', 'window', 'buffer', 'arraybuffer', 'fields', 'form']);
        const json = d => r.pick([() => odd(r), () => r.int(99), () => null, () => r.bool(), () => (d > 2 ? 1 : Object.fromEntries(Array.from({ length: r.int(3) }, () => [word(r), json(d + 1)]))), () => (d > 2 ? [] : Array.from({ length: r.int(3) }, () => json(d + 1)))])();
        const fields = d => Object.fromEntries(Array.from({ length: 1 + r.int(3) }, () => [word(r).replace(/\./g, '_') + (r.bool(0.2) ? '" \r\n\u4e2d' : ''), d < 2 && r.bool(0.3) ? fields(d + 1) : odd(r)]));
        const bytes = () => Array.from({ length: 1 + r.int(20) }, () => r.int(256));
        const value = kind === 'json' ? { k: json(0), [word(r)]: json(0) } : kind === 'urlencoded' ? Object.fromEntries(Array.from({ length: 1 + r.int(4) }, () => [word(r), r.bool(0.3) ? [odd(r), word(r)] : odd(r)])) : kind === 'text' ? odd(r) : kind === 'fields' ? fields(0)
            : kind === 'form' ? Array.from({ length: 1 + r.int(4) }, () => (r.bool() ? [word(r) + r.pick(['', '"', ' ', '\n', '\u4e2d', '\r', '\r\n']), odd(r), null, null] : [word(r), odd(r) + 'x', word(r) + r.pick(['.txt', '".t', '\r\n', '\u4e2d']), r.pick(['text/plain', 'application/octet-stream', 'image/png'])])) : bytes();
        return [kind, value];
    },
    ensures: {
        'the-length-is-that-of-the-bytes': ({ result }) => result.n === 1 && (result.body === null ? result.length === undefined : Number(result.length) === result.body.length),
        'the-bytes-mean-what-was-given': ({ kind, value, result }) => {
            const b = result.body, nl = t => t.replace(/\r?\n|\r\n?/g, '\r\n');
            if (kind === 'text') return value === '' ? b === null : b.toString() === value;
            if (kind === 'json') return same2(JSON.parse(b.toString()), value);
            if (kind === 'urlencoded') return same2(Object.entries(require('querystring').parse(b.toString())), Object.entries(value));
            if (kind === 'fields') { const flat = (o, p) => Object.entries(o).flatMap(([k, v]) => (typeof v === 'string' ? [[p + k, nl(v), null, null]] : flat(v, p + k + '.'))); return same2(result.back, flat(value, '').map(([k, v, x, y]) => [k, v, x, y])); }
            if (kind === 'form') return same2(result.back, value.map(([k, v, n, m]) => [k, n === null ? nl(v) : v, n, m]));
            return b.equals(Buffer.from(value));
        },
        'multipart-names-its-boundary': ({ kind, result }) => !['fields', 'form'].includes(kind) || /^multipart\/form-data; boundary=[\w-]{1,70}$/.test(result.type),
    },
});
C.push({
    id: 'requestAnswer', property: 'Q01', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET,
    drive: `async (bytes, enc, cuts, stop) => {
        const z = H.req('zlib'), t = Buffer.from(bytes), e = (enc || '').toLowerCase();
        let w = e === 'gzip' || e === 'x-gzip' ? z.gzipSync(t) : e === 'deflate' ? z.deflateSync(t) : e === 'deflate-raw' ? z.deflateRawSync(t) : e === 'br' ? z.brotliCompressSync(t) : t;
        const chunks = []; for (const c of cuts) { chunks.push(w.subarray(0, c)); w = w.subarray(c); } chunks.push(w);
        H.answers = [{ status: 203, message: 'm', headers: enc ? { 'content-encoding': e === 'deflate-raw' ? 'deflate' : enc } : {}, chunks: chunks.filter(c => c.length) }];
        const seen = [], heads = []; const handlers = stop === null ? {} : { header: res => { heads.push(res.statusCode); return stop === 'header'; }, data: c => { seen.push(c); return stop === 'data'; } };
        const v = await request('http://a.example/', {}, handlers);
        return { data: v.data, seen: Buffer.concat(seen), n: seen.length, heads, error: v.error, status: v.status, closed: v.request.destroyed };
    }`,
    params: { bytes: raw(), enc: raw(), cuts: raw(), stop: raw() },
    gen: r => [Array.from({ length: r.pick([0, 1, 2, 30, 200, 2000]) }, () => (r.bool(0.7) ? 97 : r.int(256))), r.pick([null, 'gzip', 'GZIP', 'x-gzip', 'deflate', 'Deflate', 'deflate-raw', 'br', 'identity']), Array.from({ length: r.int(5) }, () => 1 + r.int(r.pick([1, 3, 30]))), r.pick([null, null, 'no', 'no', 'header', 'data'])],
    ensures: {
        'unpacked-and-complete': ({ bytes, stop, result }) => stop === 'header' ? result.data.length === 0 : stop === 'data' ? result.data.length === 0 : result.data.equals(Buffer.from(bytes)),
        'handlers-see-everything-once': ({ bytes, stop, result }) => stop === null || (result.heads.length === 1 && result.heads[0] === 203 && (stop === 'header' ? result.n === 0 : stop === 'data' || result.seen.equals(Buffer.from(bytes)))),
        'no-error-and-the-connection-closed': ({ result }) => result.error === null && result.status === 203 && result.closed,
    },
});
C.push({
    id: 'requestFailure', property: 'Q01', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET,
    drive: `async (kind) => { H.answers = [{ error: new Error('boom') }]; try { await (kind === 'error' ? request('http://a.example/') : kind === 'no-host' ? request({ path: '/' }) : kind === 'bad-url' ? request('http://') : request('nonsense', {})); return { ok: true, sent: H.sent.length }; } catch (e) { return { ok: false, isError: e instanceof Error, sent: H.sent.length }; } }`,
    params: { kind: { ...raw(), gen: r => r.pick(['error', 'no-host', 'bad-url', 'nonsense']) } }, runMax: 400, 
    ensures: { 'refused-with-an-error': ({ kind, result }) => !result.ok && result.isError && result.sent === (kind === 'error' ? 1 : 0) },
});

// ---- Q02: redirects --------------------------------------------------------
const CREDS = ['cookie', 'authorization'];
const trail = (start, o, hops) => { // what has to be sent, one entry per request
    const max = o.maxRedirects === undefined ? 21 : o.maxRedirects; let u = new URL(start), m = (o.method || 'get').toUpperCase(), body = o.body === undefined ? null : o.body, creds = true;
    const out = [{ u, m, body, creds }];
    for (let i = 0; i < hops.length && i < max; i++) {
        const n = new URL(hops[i].location, u); if (n.hostname !== u.hostname) creds = false;
        if (m === 'POST' && (hops[i].status === 301 || hops[i].status === 302)) { m = 'GET'; body = null; }
        u = n; out.push({ u, m, body, creds });
    }
    return out;
};
C.push({
    id: 'requestRedirects', property: 'Q02', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET + '; up to 5 redirects',
    drive: `async (start, options, hops, form) => {
        H.answers = [...hops.map(h => ({ status: h.status, headers: { location: h.location }, chunks: [Buffer.from('moved')] })), { status: 200, headers: {}, chunks: [Buffer.from('end')] }];
        const seen = [], heads = []; let v;
        const handlers = { header: res => { heads.push(res.statusCode); }, data: c => { seen.push(c); } };
        if (form) { const u = new URL(start); options = { ...options, hostname: u.hostname, path: u.pathname + u.search, https: u.protocol === 'https:', ...(u.port ? { port: +u.port } : {}) }; }
        const kept = H.req('util').inspect(options, { depth: 9 });
        v = form ? await request(options, handlers) : await request(start, options, handlers);
        return { sent: H.sent, crashes: H.crashes.length, data: v.data.toString(), status: v.status, seen: Buffer.concat(seen).toString(), heads, untouched: kept === H.req('util').inspect(options, { depth: 9 }) };
    }`,
    params: { start: raw(), options: raw(), hops: raw(), form: T.bool() },
    gen: r => {
        const host = () => r.pick(['a.example', 'a.example', 'a.example', 'b.example', 'x.a.example', 'a.example.org', 'xa.example', '[::1]', '127.0.0.1']), abs = () => `${r.pick(['http', 'https'])}://${host()}${r.bool(0.2) ? ':' + (1 + r.int(9999)) : ''}${pathText(r)}${r.bool(0.3) ? '?q=' + word(r) : ''}`;
        const o = {}; if (r.bool(0.6)) o.method = r.pick(['get', 'post', 'POST', 'put']); if (r.bool(0.7)) { o.headers = {}; for (const k of ['Cookie', 'authorization', 'Authorization', 'X-Keep', 'COOKIE']) if (r.bool(0.4) && !(k.toLowerCase() in low(o.headers))) o.headers[k] = 'secret' + r.int(9); }
        if (r.bool(0.4)) o.auth = 'u:p'; if (o.method && /post|put/i.test(o.method) && r.bool(0.8)) o.body = 'body ' + word(r); if (r.bool(0.3)) o.maxRedirects = r.int(4);
        const hops = Array.from({ length: r.pick([0, 1, 1, 2, 2, 3, 5]) }, () => ({ status: r.pick([301, 302, 302, 307, 308]), location: r.bool(0.55) ? abs() : r.pick([() => pathText(r), () => word(r).replace(/^\.+|[-:]/g, 'x'), () => '?z=' + word(r), () => '../' + word(r), () => '//' + host() + pathText(r)])() }));
        return [abs(), o, hops, r.bool(0.3)];
    },
    ensures: {
        'each-location-followed-up-to-the-limit': ({ start, options: o, hops, result }) => { const w = trail(start, o, hops); return result.crashes === 0 && result.sent.length === w.length && w.every(({ u }, i) => { const s = result.sent[i]; return s.proto + ':' === u.protocol && s.hostname === u.hostname && (s.port === undefined ? '' : String(s.port)) === u.port && s.path === u.pathname + u.search; }); },
        'no-credentials-for-another-host': ({ start, options: o, hops, result }) => trail(start, o, hops).every(({ creds }, i) => creds || (result.sent[i].auth === undefined && CREDS.every(k => result.sent[i].headers[k] === undefined))),
        'the-same-host-gets-what-was-given': ({ start, options: o, hops, result }) => trail(start, o, hops).every(({ creds }, i) => Object.entries(low(o.headers)).every(([k, v]) => (!creds && CREDS.includes(k)) || result.sent[i].headers[k] === v) && (!creds || result.sent[i].auth === o.auth)),
        'method-and-body-kept-but-a-moved-post-becomes-a-bare-get': ({ start, options: o, hops, result }) => trail(start, o, hops).every(({ m, body }, i) => result.sent[i].method === m && (body === null ? result.sent[i].body === null : String(result.sent[i].body) === body)),
        'the-last-answer-is-the-result': ({ start, options: o, hops, result }) => { const n = trail(start, o, hops).length - 1, end = n === hops.length; return result.status === (end ? 200 : hops[n].status) && result.data === (end ? 'end' : 'moved') && result.seen === result.data && same2(result.heads, [result.status]); },
        'the-callers-options-stay-as-they-are': ({ result }) => result.untouched,
    },
});
C.push({
    id: 'requestBadRedirect', property: 'Q02', uses: RQ, env: 'net', runMs: 6000, runMax: 30000, bounded: NET,
    drive: `async (location) => { H.answers = [{ status: 302, headers: { location }, chunks: [] }, { status: 200, headers: {}, chunks: [] }]; try { await request('http://a.example/'); return { ok: true, crashes: H.crashes.length }; } catch (e) { return { ok: false, isError: e instanceof Error, crashes: H.crashes.length }; } }`,
    params: { location: { ...raw(), gen: r => r.pick(['http://', 'https://[', 'http://a b/', '//', 'http://x:99999/']) } }, runMax: 200,
    ensures: { 'reported-not-thrown-out-of-the-connection': ({ result }) => !result.ok && result.isError && result.crashes === 0 },
});
