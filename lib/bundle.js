'use strict';
// Bundles the real sources under test into one CommonJS module.
const path = require('path');
const fs = require('fs');
const { REPO } = require('./loader');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
function bundle(entries, out, peek) { // entries: [{key, file, export}]
    const src = entries.map((e, i) => `import { ${e.export || 'default'} as v${i} } from ${JSON.stringify(path.join(REPO, e.file))};`).join('\n') + `\nmodule.exports = { ${entries.map((e, i) => `${JSON.stringify(e.key)}: v${i}`).join(', ')} };`;
    // peek: { file, names } also exports those module-level constants
    const plugin = {
        name: 'curong', setup(b) {
            b.onResolve({ filter: /^@curong\// }, a => {
                const rest = a.path.slice(8).split('/');
                const base = path.join(REPO, 'packages', rest[0], 'src', ...rest.slice(1));
                for (const f of [base + '.ts', path.join(base, 'index.ts')]) if (fs.existsSync(f)) return { path: f };
            });
            if (peek) b.onLoad({ filter: /\.ts$/ }, a => (a.path === path.join(REPO, peek.file) ? { contents: fs.readFileSync(a.path, 'utf8') + `\nexport const verifPeek = () => ({ ${peek.names.join(', ')} });\n`, loader: 'ts' } : null));
            b.onResolve({ filter: /^(node:)?fs(\/promises)?$/ }, a => ({ path: path.join(__dirname, a.path.endsWith('promises') ? 'env-promises.js' : 'env.js'), external: true })); // never the real file system
            b.onResolve({ filter: /^(node:)?https?$/ }, a => ({ path: path.join(__dirname, a.path.endsWith('s') ? 'env-https.js' : 'env-http1.js'), external: true })); // nothing leaves the process
            b.onResolve({ filter: /^[a-z@]/ }, a => (a.kind === 'entry-point' || a.path.startsWith('@curong') ? null : { path: a.path, external: true }));
        }
    };
    return esbuild.build({ stdin: { contents: src, resolveDir: REPO, loader: 'js' }, bundle: true, platform: 'node', format: 'cjs', outfile: out, plugins: [plugin], logLevel: 'silent', target: 'node20', sourcemap: false, keepNames: true, tsconfigRaw: '{}' });
}
function entriesOf(c) {
    const es = [];
    if (c.file) es.push({ key: c.id + '#fn', file: c.file, export: c.export });
    for (const [n, u] of Object.entries(c.uses || {})) es.push(typeof u === 'string' ? { key: c.id + '#' + n, file: u, export: 'default' } : { key: c.id + '#' + n, file: u.file, export: u.export });
    return es;
}
module.exports = { bundle, entriesOf };
