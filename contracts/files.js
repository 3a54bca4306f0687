'use strict';
const { T } = require('../lib/types');
const { forall, implies, macro, own, same, fsn, fsname, fsarg, fsok, fsval, fsIs, pathFn, json, jsonOk, isErr } = require('../lib/speclib');
const D = 'packages/fs/src/';
const C = module.exports = [];
const PATH = () => ({ ...T.str(), gen: r => r.pick(['/a', 'a/b', '.', '../x', '/a/b.txt', 'x.lnk', '', 'a b', '/']) });
// what the operations before the k-th did: looked, and changed nothing
const looked = macro('looked', k => fsname(k) === 'stat' || fsname(k) === 'lstat' || fsname(k) === 'access' || fsname(k) === 'realpath' || fsname(k) === '');
const onlyLooked = macro('onlyLooked', n => (n < 1 || looked(0)) && (n < 2 || looked(1)) && (n < 3 || looked(2)) && (n < 4 || looked(3)) && n < 5);
// one of the looks at the path said so
const saw = macro('saw', (p, bit) => (fsIs(0, bit) && fsarg(0, 0) === p) || (fsIs(1, bit) && fsarg(1, 0) === p) || (fsIs(2, bit) && fsarg(2, 0) === p) || (fsIs(3, bit) && fsarg(3, 0) === p));
// every look of that kind said so
const agrees = macro('agrees', (k, op, bit) => fsname(k) !== op || fsIs(k, bit));
const steady = macro('steady', (op, bit) => agrees(0, op, bit) && agrees(1, op, bit) && agrees(2, op, bit) && agrees(3, op, bit));
for (const [id, bit] of [['isDir', 'isDirectory'], ['isFile', 'isFile']]) C.push({
    id: id + 'Path', property: 'X01', file: `${D}${id}.ts`, env: 'stub', params: { pathString: PATH() },
    ensures: {
        'follows-the-path-and-only-looks': ({ pathString }) => fsn() >= 1 && fsname(fsn() - 1) === 'stat' && fsarg(fsn() - 1, 0) === pathString && onlyLooked(fsn()),
        'yes-exactly-when-it-is-one': new Function('fsIs', 'fsn', `return ({ result }) => result === fsIs(fsn() - 1, '${bit}')`)(fsIs, fsn),
    },
});
C.push({
    id: 'isSymbolicLinkPath', property: 'X01', file: D + 'isSymbolicLink.ts', env: 'stub', params: { pathString: PATH() },
    ensures: {
        'looks-at-the-link-itself': ({ pathString }) => fsn() >= 1 && fsname(fsn() - 1) === 'lstat' && fsarg(fsn() - 1, 0) === pathString && onlyLooked(fsn()),
        'yes-exactly-when-it-is-one': ({ result }) => result === fsIs(fsn() - 1, 'isSymbolicLink'),
    },
});
C.push({
    id: 'symbolicLink', property: 'X01', file: D + 'symbolicLink.ts', env: 'stub', params: { pathString: PATH() },
    ensures: {
        'reads-that-link': ({ pathString }) => fsn() === 1 && fsname(0) === 'readlink' && fsarg(0, 0) === pathString,
        'its-target-or-null': ({ result }) => (fsok(0) ? result === fsval(0) : result === null),
    },
});
const MK = () => T.opt(T.rec({ recursive: T.optional(T.bool()), mode: T.optional(T.nat({ max: 4095 })) }));
C.push({
    id: 'mkdirOne', property: 'X01', file: D + 'mkdir.ts', env: 'stub', params: { dirPath: PATH(), options: MK() },
    ensures: {
        'one-directory-made': ({ dirPath }) => fsn() === 1 && fsname(0) === 'mkdir' && fsarg(0, 0) === dirPath && fsok(0),
        'with-its-parents-unless-told-otherwise': ({ options }) => fsarg(0, 1).recursive === (options !== undefined && own(options, 'recursive') ? options.recursive : true),
        'with-the-mode-given': ({ options }) => fsarg(0, 1).mode === (options !== undefined && own(options, 'mode') ? options.mode : 493),
        'what-was-made': ({ result }) => same(result, fsval(0)),
    },
    throws: { 'only-when-it-failed': ({ dirPath }) => fsn() === 1 && fsname(0) === 'mkdir' && fsarg(0, 0) === dirPath && !fsok(0) },
});
const opt = macro('opt', (o, k, d) => (o !== undefined && own(o, k) ? o[k] : d));
const { tag, keysOf, kindOf } = require('../lib/speclib');
C.push({
    id: 'readFileOne', property: 'X01', file: D + 'readFile.ts', env: 'stub',
    params: { filePath: PATH(), options: T.opt(T.rec({ encoding: T.optional(T.str()), flag: T.optional(T.str()), mode: T.optional(T.nat({ max: 4095 })) })) },
    ensures: {
        'one-file-read': ({ filePath }) => fsn() === 1 && fsname(0) === 'readFile' && fsarg(0, 0) === filePath && fsok(0),
        'as-told-or-by-default': ({ options }) => fsarg(0, 1).encoding === opt(options, 'encoding', 'utf8') && fsarg(0, 1).flag === opt(options, 'flag', 'r+') && fsarg(0, 1).mode === opt(options, 'mode', 493),
        'its-content-as-read': ({ result }) => same(result, fsval(0)),
    },
    throws: { 'only-when-it-failed': ({ filePath }) => fsn() === 1 && fsname(0) === 'readFile' && fsarg(0, 0) === filePath && !fsok(0) },
});
// filled arrays and filled plain objects are turned into JSON, unless told otherwise
const turned = macro('turned', (d, o) => opt(o, 'isFormat', true) === true && ((kindOf(d) === 'array' && d.length > 0) || (kindOf(d) === 'object' && tag(d) === 'Object' && keysOf(d).length > 0)));
const dirs = macro('dirs', o => opt(o, 'isMkdir', false) === true);
const WR = o => ({
    property: 'X01', file: D + 'writeFile.ts', env: 'stub',
    params: { filePath: PATH(), data: o.data, options: o.options },
    ensures: {
        'the-file-written-last': ({ filePath, options }) => fsn() === (dirs(options) ? 2 : 1) && fsname(fsn() - 1) === 'writeFile' && fsarg(fsn() - 1, 0) === filePath && fsok(fsn() - 1),
        'its-directory-before-when-asked': ({ filePath, options }) => !dirs(options) || (fsname(0) === 'mkdir' && fsok(0) && fsarg(0, 0) === pathFn('dirname', filePath) && fsarg(0, 1).recursive === true),
        'the-data-or-its-json': ({ data, options }) => same(fsarg(fsn() - 1, 1), turned(data, options) ? json(data) : data),
        'as-told-or-by-default': ({ options }) => fsarg(fsn() - 1, 2).encoding === opt(options, 'encoding', 'utf8') && fsarg(fsn() - 1, 2).flag === opt(options, 'flag', 'w+') && fsarg(fsn() - 1, 2).mode === opt(options, 'mode', 493),
        'nothing-returned': ({ result }) => result === undefined,
    },
    throws: {
        'only-when-something-failed': ({ data, options }) => (fsn() === 0 ? turned(data, options) && !jsonOk(data) : !fsok(fsn() - 1)),
        'never-written-without-its-directory': ({ filePath, options }) => fsn() === 0 || (fsn() === 1 ? fsname(0) === (dirs(options) ? 'mkdir' : 'writeFile') : fsn() === 2 && fsok(0) && fsname(1) === 'writeFile' && dirs(options)),
        'no-json-no-file': ({ data, options }) => !turned(data, options) || jsonOk(data) || fsn() === 0,
    },
    always: { 'nothing-else-touched': ({ filePath, options }) => (fsname(0) === 'mkdir' ? fsarg(0, 0) === pathFn('dirname', filePath) : fsname(0) === '' || fsarg(0, 0) === filePath) && (fsname(1) === '' || fsarg(1, 0) === filePath) },
});
const BIT = () => T.optional(T.bool());
C.push({ id: 'writeFileData', ...WR({ data: T.or(T.prim(), T.arr(T.prim()), T.obj({ gen: r => r.pick([{}, { a: 1 }, { a: 1n }, new Map([[1, 2]]), new Date(0), Buffer.from('x'), Object.create(null), { toJSON: () => undefined, a: 1 }]) })), options: T.opt(T.rec({ isMkdir: BIT(), isFormat: BIT() })) }) });
C.push({ id: 'writeFileOptions', ...WR({ data: T.str(), options: T.rec({ encoding: T.optional(T.str()), flag: T.optional(T.str()), mode: T.optional(T.nat({ max: 4095 })), isMkdir: BIT() }) }) });
C.push({
    id: 'deleteOnePath', property: 'X01', file: D + 'deleteOne.ts', env: 'stub', params: { pathString: PATH() },
    ensures: {
        'one-removal-at-the-end': ({ pathString }) => fsn() >= 2 && onlyLooked(fsn() - 1) && fsok(fsn() - 1) && fsarg(fsn() - 1, 0) === pathString,
        'a-directory-with-all-in-it-or-one-file': ({ pathString }) => (fsname(fsn() - 1) === 'unlink' ? saw(pathString, 'isFile') || saw(pathString, 'isSymbolicLink') : (fsname(fsn() - 1) === 'rmdir' || fsname(fsn() - 1) === 'rm') && fsarg(fsn() - 1, 1).recursive === true && saw(pathString, 'isDirectory')),
    },
    throws: { 'refuses-only-what-is-not-there': ({ pathString }) => !onlyLooked(fsn()) || !(steady('stat', 'isDirectory') || steady('stat', 'isFile') || steady('lstat', 'isSymbolicLink')), 'nothing-removed-or-the-removal-failed': ({ pathString }) => onlyLooked(fsn()) || (fsn() >= 2 && onlyLooked(fsn() - 1) && !fsok(fsn() - 1) && fsarg(fsn() - 1, 0) === pathString && (fsname(fsn() - 1) === 'unlink' || fsname(fsn() - 1) === 'rmdir' || fsname(fsn() - 1) === 'rm')) },
});

// ---- trees: the real code on the real file system, inside a scratch directory (bounded)
const NAMES = ['a', 'b', 'c', 'd', 'A', 'a.txt', 'x y', ' b ', '-r', '*', '\u4e2d', '.h'];
const text = r => { const n = r.pick([0, 1, 3, 511, 512, 513, 1024, 1300]); let s = ''; for (let i = 0; i < n; i++) s += r.bool(0.02) ? '\0' : String.fromCharCode(97 + r.int(3)); return r.bool(0.1) ? s + '\0'.repeat(r.int(600)) : s; };
const treeGen = (r, d = 0, links = true) => { const t = {}; for (let i = r.int(d ? 4 : 6); i > 0; i--) { const x = r.next(); t[r.pick(NAMES)] = x < 0.4 || d > 2 ? text(r) : links && x < 0.6 ? ['link', r.pick(['%/keep', '%/keep/f', '%/nowhere', 'nowhere', '%/gone/a'])] : treeGen(r, d + 1, links); } return t; };
const TREE = (links = true) => ({ ...T.tok(), gen: r => treeGen(r, 0, links) });
const FAULT = p => ({ ...T.tok(), gen: r => (r.bool(p) ? r.int(12) : -1) });
const same2 = (a, b) => JSON.stringify(order(a)) === JSON.stringify(order(b));
const order = t => (t && typeof t === 'object' && !Array.isArray(t) ? Object.fromEntries(Object.keys(t).sort().map(k => [k, order(t[k])])) : t);
const KEEP = "keep: { f: 'kept', sub: { g: 'kept too' } }";
const run = (s, x) => `H.failAt = fault; let ok = true, value, error; try { value = await ${s}; } catch (e) { ok = false; error = e; } const faulted = H.failAt >= 0 && H.n > H.failAt; H.failAt = -1; const open = H.openCount(), after = H.get(), root = H.root; return { ok, value, error, after, open, faulted, escapes: H.escapes.length, root${x || ''} };`;
const kept = r => same2(r.after.keep, { f: 'kept', sub: { g: 'kept too' } }) && r.escapes === 0;
const BOUND = 'random trees of up to three levels with files of 0 to 1900 bytes and symbolic links; at most one operation (looks at a path aside) failing, at any place';
const tree = (id, uses, o) => C.push({ id, property: 'X02', uses, env: 'scratch', bounded: o.bounded || BOUND, runMs: 2500, ...o });
tree('clearDirTree', { clearDir: D + 'clearDir.ts' }, {
    drive: `async (tree, kind, fault) => { H.put({ d: kind === 1 ? 'file' : tree, ${KEEP} }); if (kind === 2) H.fs.rmSync(H.at('d'), { recursive: true }); ${run("clearDir(H.at('d'))")} }`,
    params: { tree: TREE(), kind: { ...T.tok(), gen: r => r.pick([0, 0, 0, 0, 1, 2]) }, fault: FAULT(0.3) },
    ensures: {
        'emptied-and-still-there': ({ kind, result }) => !result.ok || (kind === 0 && same2(result.after, { d: {}, keep: result.after.keep })),
        'succeeds-unless-an-operation-fails': ({ kind, result }) => result.ok || result.faulted || kind !== 0,
        'nothing-outside-it-touched': ({ result }) => kept(result) && Object.keys(result.after).every(k => k === 'd' || k === 'keep'),
        'no-directory-nothing-happens': ({ kind, result }) => kind === 0 || (!result.ok && (kind === 2 ? !('d' in result.after) : result.after.d === 'file')),
    },
});
tree('deleteOneTree', { deleteOne: D + 'deleteOne.ts' }, {
    drive: `async (tree, name, fault) => { H.put({ d: tree, ${KEEP} }); ${run('deleteOne(H.at("d/" + name))')} }`,
    params: { tree: TREE(), name: { ...T.tok(), gen: r => r.pick(NAMES) }, fault: FAULT(0.3) },
    gen: r => { const t = treeGen(r), ks = Object.keys(t); return [t, ks.length && r.bool(0.85) ? r.pick(ks) : r.pick(NAMES), r.bool(0.2) ? r.int(5) : -1]; },
    ensures: {
        'that-and-only-that-is-gone': ({ tree: t, name, result }) => { if (!result.ok) return same2(result.after, { d: t, keep: result.after.keep }) || (result.faulted && kept(result)); const w = { ...t }; delete w[name]; return name in t && same2(result.after.d, w); },
        'refuses-only-what-is-not-there': ({ tree: t, name, result }) => result.ok || result.faulted || !(name in t),
        'nothing-outside-it-touched': ({ result }) => kept(result),
    },
});
tree('diffFileTree', { diffFile: D + 'diffFile.ts' }, {
    bounded: 'pairs of files of up to 1900 bytes, the same, differing at one place, in length, or absent; at most one operation (looks at a path aside) failing, at any place',
    drive: `async (a, b, fault) => { const t = {}; if (a !== null) t.a = a; if (b !== null) t.b = b; H.put(t); ${run("diffFile(H.at('a'), H.at('b'))")} }`,
    params: { a: T.tok(), b: T.tok(), fault: T.tok() },
    gen: r => { const a = text(r); let b = a; const k = r.int(8); if (k === 0) b = null; else if (k === 1) b = text(r); else if (k === 2) b = a + r.pick(['\0', 'x']); else if (k === 3 && a) b = a.slice(0, -1); else if (k === 4 && a) { const i = r.int(a.length); b = a.slice(0, i) + 'Z' + a.slice(i + 1); } else if (k === 5 && a) { const i = r.int(a.length); b = a.slice(0, i) + a.slice(i + 1) + a[i]; } return r.bool(0.1) ? [null, b, -1] : r.bool() ? [a, b, r.bool(0.3) ? r.int(10) : -1] : [b, a, -1]; },
    ensures: {
        'yes-exactly-when-both-hold-the-same-bytes': ({ a, b, result }) => result.faulted ? !result.ok || result.value === (a !== null && a === b) || result.value === false : result.ok && result.value === (a !== null && a === b),
        'no-file-left-open': ({ result }) => result.open === 0,
        'only-looks': ({ a, b, result }) => (result.after.a === undefined ? a === null : result.after.a === a) && (result.after.b === undefined ? b === null : result.after.b === b) && result.escapes === 0,
    },
});
// what a tree becomes when it is copied over another
const over = (from, to, force) => { const w = { ...to }; for (const [k, v] of Object.entries(from)) { if (typeof v === 'string') { if (typeof w[k] === 'object') return null; if (w[k] === undefined || force) w[k] = v; } else if (Array.isArray(v)) { if (w[k] !== undefined) return null; w[k] = v; } else { if (w[k] !== undefined && (typeof w[k] !== 'object' || Array.isArray(w[k]))) return null; const s = over(v, w[k] || {}, force); if (s === null) return null; w[k] = s; } } return w; };
const plainTree = (r, from) => { const t = {}; for (const k of Object.keys(from)) if (r.bool(0.3)) t[k] = typeof from[k] === 'string' ? text(r) : Array.isArray(from[k]) ? text(r) : plainTree(r, from[k]); if (r.bool(0.5)) t['old' + r.int(3)] = text(r); if (r.bool(0.05)) t[r.pick(NAMES)] = treeGen(r, 2, false); return t; };
tree('copyTree', { copy: D + 'copy.ts' }, {
    drive: `async (from, to, forcibly, fault) => { H.put(to === null ? { from, ${KEEP} } : { from, to, ${KEEP} }); ${run("copy(H.at('from'), H.at('to'), forcibly === undefined ? undefined : { forcibly })")} }`,
    params: { from: T.tok(), to: T.tok(), forcibly: T.tok(), fault: T.tok() },
    gen: r => { const x = r.next(), from = x < 0.15 ? text(r) : treeGen(r); return [from, r.bool(0.4) ? null : typeof from === 'string' ? text(r) : r.bool(0.05) ? 'file' : plainTree(r, from), r.pick([undefined, true, false]), r.bool(0.25) ? r.int(20) : -1]; },
    ensures: {
        'the-source-is-left-alone': ({ from, result }) => same2(result.after.from, from) && kept(result),
        'the-copy-holds-the-source-over-what-was-there': ({ from, to, forcibly, result }) => { if (!result.ok) return true; const force = forcibly !== false; const links = t => (Array.isArray(t) ? ['link'] : typeof t === 'object' ? Object.fromEntries(Object.entries(t).map(([k, v]) => [k, links(v)])) : t);
            const want = typeof from === 'string' ? (to === null || force ? from : to) : over(from, to === null ? {} : to, force); return want !== null && same2(links(result.after.to), links(want)); },
        'each-link-leads-to-the-same': ({ from, result }) => { if (!result.ok || typeof from === 'string') return true; const go = (t, u, p) => Object.entries(t).every(([k, v]) => (Array.isArray(v) ? Array.isArray(u[k]) && (u[k][1] === v[1] || u[k][1] === p + '/' + k) : typeof v !== 'object' || go(v, u[k], p + '/' + k))); return go(from, result.after.to, '%/from'); },
        'fails-only-over-something-else': ({ from, to, result }) => result.ok || result.faulted || (typeof from === 'string' ? typeof to !== 'string' : to !== null && (typeof to === 'string' || over(from, to, true) === null)),
        'nothing-outside-the-copy-touched': ({ result }) => Object.keys(result.after).every(k => ['from', 'to', 'keep'].includes(k)),
    },
});
tree('copyFileTree', { copyFile: D + 'copyFile.ts' }, {
    drive: `async (name, text, old, forcibly, fault) => {
        H.put({ src: { sub: {} }, des: {}, ${KEEP} });
        if (text !== null) H.fs.writeFileSync(H.at('src/' + name), text);
        if (old === 1) { H.fs.mkdirSync(H.path.dirname(H.at('des/' + name)), { recursive: true }); H.fs.mkdirSync(H.at('des/' + name)); H.fs.writeFileSync(H.at('des/' + name + '/in'), 'in'); } else if (old !== null) { H.fs.mkdirSync(H.path.dirname(H.at('des/' + name)), { recursive: true }); H.fs.writeFileSync(H.at('des/' + name), old); }
        ${run("copyFile(H.at('src/' + name), H.at('src'), H.at('des'), forcibly === undefined ? undefined : { forcibly })")} }`,
    params: { name: T.tok(), text: T.tok(), old: T.tok(), forcibly: T.tok(), fault: T.tok() },
    gen: r => { const t = text(r); return [r.pick(['a', 'sub/b', 'sub/a.txt', 'x y']), r.bool(0.1) ? null : t, r.pick([null, null, t, text(r), 1]), r.pick([undefined, true, false]), r.bool(0.5) ? r.int(14) : -1]; },
    bounded: 'files of 0 to 1900 bytes over nothing, the same, another file or a directory; at most one operation (looks at a path aside) failing, at any place',
    ensures: {
        'the-source-is-left-alone': ({ name, text: t, result }) => { const at = name.split('/').reduce((x, k) => x[k], result.after.src); return (t === null ? at === undefined : at === t) && kept(result) && Object.keys(result.after.src).every(k => k === 'sub' || k === name); },
        'the-destination-holds-the-same': ({ name, text: t, result }) => !result.ok || (t !== null && name.split('/').reduce((x, k) => x && x[k], result.after.des) === t && result.value === result.root + '/des/' + name),
        'succeeds-unless-something-fails': ({ text: t, old, result }) => result.ok || result.faulted || t === null || old === 1,
        'a-directory-in-the-way-stays': ({ name, old, result }) => old !== 1 || same2(name.split('/').reduce((x, k) => x && x[k], result.after.des), { in: 'in' }),
    },
});
const paths = (t, p) => Object.entries(t).flatMap(([k, v]) => (typeof v === 'string' || Array.isArray(v) ? [p + '/' + k] : paths(v, p + '/' + k)));
tree('fileListTree', { fileList: D + 'fileList.ts' }, {
    drive: `async (tree, depthOnce, fault) => { H.put({ d: tree, ${KEEP} }); ${run("fileList(H.at('d'), depthOnce === undefined ? undefined : { depthOnce })")} }`,
    params: { tree: TREE(), depthOnce: { ...T.tok(), gen: r => r.pick([undefined, false, false, true]) }, fault: FAULT(0.2) },
    ensures: {
        'every-file-once': ({ tree: t, depthOnce, result }) => !result.ok || JSON.stringify([...result.value].sort()) === JSON.stringify((depthOnce ? Object.keys(t) : paths(t, result.root + '/d')).sort()),
        'fails-only-when-a-directory-cannot-be-read': ({ result }) => result.ok !== result.faulted,
        'only-looks': ({ tree: t, result }) => same2(result.after.d, t) && kept(result),
    },
});
const named = (t, p, ns) => Object.entries(t).flatMap(([k, v]) => (typeof v === 'string' || Array.isArray(v) ? [] : ns.includes(k) ? [p + '/' + k] : named(v, p + '/' + k, ns)));
tree('findDirTree', { findDir: D + 'findDir.ts' }, {
    drive: `async (tree, names, fault) => { H.put({ d: tree, ${KEEP} }); ${run("findDir(H.at('d'), names)")} }`,
    params: { tree: TREE(), names: { ...T.tok(), gen: r => r.pick([undefined, 'a', 'b', [], ['a'], ['b', 'c'], ['a', 'd', 'x y'], '']) }, fault: T.const(-1) },
    ensures: {
        'every-directory-of-that-name-outside-the-others': ({ tree: t, names, result }) => result.ok && JSON.stringify([...result.value].sort()) === JSON.stringify(named(t, result.root + '/d', names === undefined || names === '' ? [] : [].concat(names)).sort()),
        'only-looks': ({ tree: t, result }) => same2(result.after.d, t) && kept(result),
    },
});
tree('readFragmentTree', { readFragment: D + 'readFragment.ts' }, {
    bounded: 'files of up to 1900 one-byte characters with line ends, all pairs of positions about them',
    drive: `async (text, options, fault) => { H.put({ f: text }); ${run("readFragment(H.at('f'), options)")} }`,
    params: { text: T.tok(), options: T.tok(), fault: T.const(-1) },
    gen: r => { let t = text(r); if (r.bool()) t = t.split('').map(c => (r.bool(0.1) ? r.pick(['\n', '\r\n', '\r']) : c)).join('').slice(0, 1900); const p = () => r.pick([0, 0, 1, 2, t.length, t.length + 1, r.int(t.length + 2), 511, 512, -1, 1.5]); const o = {}; if (r.bool(0.7)) o.start = p(); if (r.bool(0.85)) o.end = p(); if (r.bool(0.3)) o.firstLine = r.bool(); return [t, o, -1]; },
    ensures: {
        'from-the-start-to-the-end-both-included': ({ text: t, options: o, result }) => { const s = o.start === undefined ? 0 : o.start, e = o.end === undefined ? 0 : o.end; const bad = !Number.isSafeInteger(s) || !Number.isSafeInteger(e) || s < 0 || e < 0; if (bad || (e > 0 && s > e)) return !result.ok; if (e === 0) return result.ok && result.value === undefined; const w = t.slice(s, e + 1); return result.ok && result.value === (o.firstLine ? w.split(/\r\n|\r|\n/)[0] : w); },
        'only-looks': ({ text: t, result }) => result.after.f === t && result.escapes === 0,
    },
});
