'use strict';
// Parses the real sources of /repo and resolves names to declarations.
const fs = require('fs');
const path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');

const REPO = process.env.VERIF_REPO || '/repo';

class Loader {
    constructor() { this.files = new Map(); }
    exists(f) { try { return fs.statSync(f).isFile(); } catch { return false; } }
    resolve(spec, from) {
        let base;
        if (spec.startsWith('@curong/')) {
            const rest = spec.slice('@curong/'.length).split('/');
            base = path.join(REPO, 'packages', rest[0], 'src', ...rest.slice(1));
        } else if (spec.startsWith('/')) base = spec;
        else if (spec.startsWith('.')) base = path.resolve(path.dirname(from), spec);
        else return null;
        for (const c of [base + '.ts', path.join(base, 'index.ts'), base]) if (this.exists(c)) return c;
        return null;
    }
    load(file) {
        if (this.files.has(file)) return this.files.get(file);
        const text = fs.readFileSync(file, 'utf8');
        const sf = ts.createSourceFile(file, text, ts.ScriptTarget.Latest, true);
        const m = { file, sf, text, imports: new Map(), exports: new Map(), stars: [], decls: new Map() };
        this.files.set(file, m);
        const addDecl = (name, node) => { const p = m.decls.get(name); if (!p || !(p.kind === ts.SyntaxKind.FunctionDeclaration && p.body)) m.decls.set(name, node); };
        for (const s of sf.statements) {
            if (ts.isImportDeclaration(s)) {
                const c = s.importClause; const spec = s.moduleSpecifier.text;
                if (!c) continue;
                if (c.isTypeOnly) continue;
                if (c.name) m.imports.set(c.name.text, { spec, name: 'default' });
                if (c.namedBindings) {
                    if (ts.isNamespaceImport(c.namedBindings)) m.imports.set(c.namedBindings.name.text, { spec, name: '*' });
                    else for (const e of c.namedBindings.elements) if (!e.isTypeOnly) m.imports.set(e.name.text, { spec, name: (e.propertyName || e.name).text });
                }
                continue;
            }
            if (ts.isExportDeclaration(s)) {
                if (s.isTypeOnly) continue;
                const spec = s.moduleSpecifier && s.moduleSpecifier.text;
                if (!s.exportClause) { m.stars.push(spec); continue; }
                if (ts.isNamespaceExport(s.exportClause)) { m.exports.set(s.exportClause.name.text, { spec, name: '*' }); continue; }
                for (const e of s.exportClause.elements) {
                    const from = (e.propertyName || e.name).text;
                    m.exports.set(e.name.text, spec ? { spec, name: from } : { local: from });
                }
                continue;
            }
            if (ts.isExportAssignment(s)) {
                m.decls.set('%default', s.expression);
                m.exports.set('default', { local: '%default' });
                continue;
            }
            const mods = (ts.canHaveModifiers(s) && ts.getModifiers(s)) || [];
            const exp = mods.some(x => x.kind === ts.SyntaxKind.ExportKeyword);
            const def = mods.some(x => x.kind === ts.SyntaxKind.DefaultKeyword);
            if (ts.isFunctionDeclaration(s)) {
                const name = s.name ? s.name.text : '%default';
                addDecl(name, s);
                if (def) m.exports.set('default', { local: name });
                else if (exp) m.exports.set(name, { local: name });
            } else if (ts.isVariableStatement(s)) {
                for (const d of s.declarationList.declarations) {
                    const reg = n => {
                        if (ts.isIdentifier(n)) { addDecl(n.text, d); if (exp) m.exports.set(n.text, { local: n.text }); }
                        else for (const e of n.elements) if (!ts.isOmittedExpression(e)) reg(e.name);
                    };
                    reg(d.name);
                }
            } else if (ts.isClassDeclaration(s)) {
                const name = s.name ? s.name.text : '%default';
                addDecl(name, s);
                if (def) m.exports.set('default', { local: name });
                else if (exp) m.exports.set(name, { local: name });
            } else if (ts.isEnumDeclaration(s)) { addDecl(s.name.text, s); if (exp) m.exports.set(s.name.text, { local: s.name.text }); }
        }
        return m;
    }
    // -> { mod, name, node } | null
    findExport(file, name, seen = new Set()) {
        const key = file + '#' + name;
        if (seen.has(key)) return null;
        seen.add(key);
        const m = this.load(file);
        const e = m.exports.get(name);
        if (e) {
            if (e.local) return this.findLocal(m, e.local, seen);
            const f = this.resolve(e.spec, file);
            if (!f) return { ext: e.spec, name: e.name };
            if (e.name === '*') return { mod: this.load(f), name: '*', ns: true };
            return this.findExport(f, e.name, seen);
        }
        for (const s of m.stars) {
            const f = this.resolve(s, file);
            if (!f) continue;
            const r = this.findExport(f, name, seen);
            if (r) return r;
        }
        return null;
    }
    findLocal(m, name, seen = new Set()) {
        if (m.decls.has(name)) return { mod: m, name, node: m.decls.get(name) };
        const i = m.imports.get(name);
        if (i) {
            const f = this.resolve(i.spec, m.file);
            if (!f) return { ext: i.spec, name: i.name };
            if (i.name === '*') return { mod: this.load(f), name: '*', ns: true };
            return this.findExport(f, i.name, seen);
        }
        return null;
    }
}
module.exports = { Loader, ts, REPO };
