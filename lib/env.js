'use strict';
// Stands in for 'fs' and 'fs/promises' when the real code runs under a check.
//   deny     every operation on a path fails (the default)
//   stub     every operation has a random outcome; nothing is touched
//   net      as deny; requests are answered from a list (env-http.js)
//   scratch  the real file system, confined to a scratch directory: an
//            operation naming a path outside it is recorded and refused
const fs = require('fs');
const path = require('path');
const os = require('os');
const S = { mode: 'deny', root: null, calls: [], ops: [], escapes: [], handles: [], n: 0, failAt: -1, rng: null };
const TWO = new Set(['copyFile', 'rename', 'link', 'symlink', 'cp']);
const MUT = new Set(['rmdir', 'rm', 'unlink', 'mkdir', 'writeFile', 'appendFile', 'copyFile', 'rename', 'symlink', 'link', 'truncate', 'chmod', 'chown', 'utimes', 'cp', 'lchown', 'lutimes', 'mkdtemp', 'createWriteStream']);
const LOOK = new Set(['stat', 'lstat', 'readlink', 'access', 'exists', 'realpath', 'fstat']);
const GONE = new Set(['rmdir', 'rm', 'unlink', 'rename']);
const err = (code, op, p) => Object.assign(new Error(`${code}: ${op} '${p}'`), { code, errno: -5, syscall: op, path: p });
const inside = p => p === S.root || p.startsWith(S.root + path.sep);
// the real place a path names: its deepest existing ancestor, links resolved, and the rest as written
function place(p, follow) {
    let rest = [], d = path.resolve(String(p));
    if (!follow) { rest.unshift(path.basename(d)); d = path.dirname(d); }
    for (;;) {
        try { return path.join(fs.realpathSync(d), ...rest); } catch {}
        const up = path.dirname(d); if (up === d) return path.join(d, ...rest);
        try { if (fs.lstatSync(d).isSymbolicLink()) return place(path.resolve(up, fs.readlinkSync(d), ...rest), true); } catch {}
        rest.unshift(path.basename(d)); d = up;
    }
}
function admit(op, args) {
    const base = op.replace(/Sync$/, '');
    let ps = TWO.has(base) ? (base === 'symlink' ? [args[1]] : args.slice(0, 2)) : args.slice(0, 1);
    ps = ps.filter(p => typeof p === 'string' || Buffer.isBuffer(p) || p instanceof URL).map(p => (p instanceof URL ? p.pathname : String(p)));
    S.ops.push({ op: base, paths: ps.map(p => path.resolve(p)), mut: MUT.has(base) || (base === 'open' && !/^r$|^$/.test(String(args[1] || 'r'))) });
    if (S.mode === 'deny' || S.mode === 'net') throw err('EACCES', op, ps[0]);
    for (const p of ps) {
        const lit = path.resolve(p), real = place(p, false), end = place(p, true);
        if (!inside(lit) || !inside(real) || !inside(end) || (GONE.has(base) && lit === S.root)) { S.escapes.push({ op, path: p }); throw err('EACCES', op, p); }
    }
    if (!LOOK.has(base) && S.n++ === S.failAt) throw err('EIO', op, ps[0]); // looks never fail: their failure is an answer
}
const BITS = ['isFile', 'isDirectory', 'isSymbolicLink'];
const CODES = ['EIO', 'EEXIST', 'EISDIR', 'ENOTDIR', 'EACCES', 'EPERM', 'EBUSY', 'ENOSPC', 'EMFILE', 'EINVAL', 'ENOTEMPTY', 'ELOOP', 'EROFS', 'EXDEV'];
// a random outcome
function stub(op, args) {
    const r = S.rng, c = { op, args, ok: r.next() < 0.7, v: undefined };
    S.calls.push(c);
    if (!c.ok) { c.v = r.pick([() => err('ENOENT', op, args[0]), () => err(r.pick(CODES), op, args[0]), () => r.pick(['reason', undefined, null])])(); return Promise.reject(c.v); }
    if (op === 'stat' || op === 'lstat') { const k = r.int(4); c.bits = Object.fromEntries(BITS.map((b, i) => [b, i === k])); c.v = Object.fromEntries(BITS.map(b => [b, () => c.bits[b]])); }
    else if (op === 'readlink' || op === 'realpath') c.v = r.pick(['/a', 'b', '../c']);
    else if (op === 'readFile') c.v = r.pick(['', 'text', '\ufeffx', Buffer.from('q')]);
    else if (op === 'mkdir') c.v = r.pick([undefined, '/made']);
    else if (op === 'readdir' || op === 'open') { c.ok = false; c.v = err('EIO', op, args[0]); return Promise.reject(c.v); }
    return Promise.resolve(c.v);
}
const env = {}, promises = {};
for (const k of Object.keys(fs.promises)) {
    const f = fs.promises[k];
    if (typeof f !== 'function') { promises[k] = f; continue; }
    promises[k] = function (...args) {
        if (S.mode === 'stub') return stub(k, args);
        try { admit(k, args); } catch (e) { return Promise.reject(e); }
        const p = f.apply(fs.promises, args);
        return k === 'open' ? p.then(h => { S.handles.push(h); return h; }) : p;
    };
}
for (const k of Object.keys(fs)) {
    const f = fs[k];
    if (k === 'promises') { env.promises = promises; continue; }
    if (typeof f !== 'function' || /^[A-Z]/.test(k)) { env[k] = f; continue; }
    env[k] = function (...args) {
        if (typeof args[0] === 'number') { if (S.mode !== 'scratch') throw err('EBADF', k, args[0]); if (/^read/.test(k) && S.n++ === S.failAt) throw err('EIO', k, args[0]); return f.apply(fs, args); }
        if (S.mode === 'stub') throw err('EACCES', k, args[0]);
        const cb = typeof args[args.length - 1] === 'function' ? args[args.length - 1] : null;
        try { admit(k, args); } catch (e) { if (cb) { process.nextTick(cb, e); return undefined; } if (/Stream$/.test(k)) { const s = new (require('stream').Readable)({ read() { this.destroy(e); } }); return s; } throw e; }
        return f.apply(fs, args);
    };
}
env.promises = promises; env.default = env;
promises.default = promises;
Object.assign(env, {
    $: S,
    $begin(mode, rng) {
        Object.assign(S, { mode: mode || 'deny', root: null, calls: [], ops: [], escapes: [], handles: [], n: 0, failAt: -1, rng, sent: [], answers: [], crashes: [] });
        if (mode === 'scratch') S.root = fs.realpathSync(fs.mkdtempSync(path.join(os.tmpdir(), 'vscratch-')));
        return S;
    },
    $end() {
        const r = S.root; S.mode = 'deny'; S.root = null;
        for (const h of S.handles) if (h.fd >= 0) h.close().catch(() => {});
        if (r && /\/vscratch-[^/]+$/.test(r)) fs.rmSync(r, { recursive: true, force: true });
    },
});
// what drivers of bounded checks use: the tree inside the scratch directory
S.fs = fs; S.path = path; S.req = require;
S.put = (tree, at = S.root) => { // {name: 'text' | Buffer | {dir} | ['link', target]}
    for (const [k, v] of Object.entries(tree)) {
        const p = path.join(at, k);
        if (typeof v === 'string' || Buffer.isBuffer(v)) fs.writeFileSync(p, v); else if (Array.isArray(v)) fs.symlinkSync(v[1].replace('%', S.root), p); else { fs.mkdirSync(p); S.put(v, p); }
    }
};
S.get = (at = S.root) => {
    const t = {};
    for (const d of fs.readdirSync(at, { withFileTypes: true })) { const p = path.join(at, d.name); t[d.name] = d.isSymbolicLink() ? ['link', fs.readlinkSync(p).replace(S.root, '%')] : d.isDirectory() ? S.get(p) : fs.readFileSync(p, 'latin1'); }
    return t;
};
S.at = rel => path.join(S.root, rel);
S.openCount = () => S.handles.filter(h => h.fd >= 0).length;
module.exports = env;
