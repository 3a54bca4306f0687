'use strict';
// SMT back end: a persistent z3 process driven synchronously over FIFOs, with
// one-shot z3 / cvc5 runs as a second and third opinion on hard obligations.
const fs = require('fs');
const os = require('os');
const path = require('path');
const cp = require('child_process');

const Z3 = process.env.VERIF_Z3 || 'z3-new';
const CVC5 = process.env.VERIF_CVC5 || 'cvc5';

const nap = new Int32Array(new SharedArrayBuffer(4));
// wall-clock limits are stretched on a second attempt (a busy machine must not decide a proof)
const SLOW = Number(process.env.VERIF_SLOWX || 1);
class Solver {
    constructor(opts = {}) {
        this.decls = [];
        this.sent = 0;
        this.stats = { queries: 0, ms: 0, oneshotZ3: 0, oneshotCvc5: 0 };
        this.by = {};
        this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vsmt-'));
        this.timeout = opts.timeout || 3000;
        this.start();
    }
    start() {
        const inF = path.join(this.dir, 'in'), outF = path.join(this.dir, 'out');
        for (const f of [inF, outF]) { try { fs.unlinkSync(f); } catch {} cp.execFileSync('mkfifo', [f]); }
        const { O_RDWR, O_NONBLOCK } = fs.constants;
        this.fdIn = fs.openSync(inF, O_RDWR | O_NONBLOCK);
        this.fdOut = fs.openSync(outF, O_RDWR | O_NONBLOCK);
        const ci = fs.openSync(inF, O_RDWR), co = fs.openSync(outF, O_RDWR);
        this.proc = cp.spawn(Z3, ['-in', '-memory:3000'], { stdio: [ci, co, 'ignore'] });
        this.proc.on('error', () => {});
        fs.closeSync(ci); fs.closeSync(co);
        this.proc.unref();
        this.buf = '';
        this.sent = 0;
        this.write('(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic ALL)\n');
    }
    write(s) {
        let b = Buffer.from(s);
        for (let i = 1; b.length; i++) {
            if (i % 2000 === 0 && this.dead()) return;
            try { const n = fs.writeSync(this.fdIn, b); b = b.subarray(n); }
            catch (e) { if (e.code === 'EAGAIN') { Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 1); continue; } throw e; }
        }
    }
    dead() { try { return /\) [ZXx]/.test(fs.readFileSync(`/proc/${this.proc.pid}/stat`, 'latin1')); } catch { return true; } }
    // null: the solver died or ignored its time limit
    readUntil(marker, limit = 60000) {
        const chunk = Buffer.alloc(65536), t0 = Date.now();
        for (let idle = 0; ;) {
            const i = this.buf.indexOf(marker);
            if (i >= 0) { const r = this.buf.slice(0, i); this.buf = this.buf.slice(i + marker.length).replace(/^"?\r?\n/, ''); return r; }
            let n;
            try { n = fs.readSync(this.fdOut, chunk); }
            catch (e) {
                if (e.code !== 'EAGAIN') throw e;
                if (++idle % 50 === 0 && (this.dead() || Date.now() - t0 > limit)) return null;
                Atomics.wait(nap, 0, 0, idle < 20 ? 0.05 : idle < 200 ? 0.5 : 3); continue;
            }
            idle = 0;
            this.buf += chunk.toString('latin1', 0, n);
        }
    }
    restart() {
        this.stats.restarts = (this.stats.restarts || 0) + 1;
        try { this.proc.kill('SIGKILL'); } catch {}
        for (const f of [this.fdIn, this.fdOut]) try { fs.closeSync(f); } catch {}
        this.start();
    }
    declare(s) { this.decls.push(s); }
    sync() {
        if (this.sent < this.decls.length) {
            this.write(this.decls.slice(this.sent).join('\n') + '\n');
            this.sent = this.decls.length;
        }
    }
    // asserts: array of SMT formulas. Returns 'sat' | 'unsat' | 'unknown'.
    check(asserts, { timeout = this.timeout, getValues = null, rlimit = 0 } = {}) {
        timeout *= SLOW;
        const t0 = Date.now();
        this.stats.queries++;
        this.sync();
        const body = asserts.map(a => `(assert ${a})`).join('\n');
        this.write(`(push)\n(set-option :timeout ${timeout})\n(set-option :rlimit ${rlimit})\n${body}\n(check-sat)\n(echo "@@1")\n`);
        const raw = this.readUntil('@@1', timeout * 2 + 20000);
        if (raw === null) { this.restart(); this.stats.ms += Date.now() - t0; return getValues ? { res: 'unknown', values: null } : 'unknown'; }
        let out = raw.replace(/"/g, '').trim();
        let err = null;
        if (/error/.test(out)) { err = out; }
        const res = /unsat/.test(out) ? 'unsat' : /(^|\n)sat/.test(out) ? 'sat' : 'unknown';
        let values = null;
        if (getValues && getValues.length && res !== 'unsat') {
            this.write(`(get-value (${getValues.join(' ')}))\n(echo "@@2")\n`);
            values = this.readUntil('@@2');
            if (values === null) { this.restart(); this.stats.ms += Date.now() - t0; return { res, values: null }; }
            values = values.replace(/"$/, '');
            if (/\(error/.test(values)) values = null;
        }
        this.write('(pop)\n');
        if (process.env.VERIF_SLOWDUMP && Date.now() - t0 > +process.env.VERIF_SLOW) fs.writeFileSync('/tmp/slow/' + this.stats.queries + '.smt2', this.script(asserts));
        if (process.env.VERIF_SLOW && Date.now() - t0 > +process.env.VERIF_SLOW) fs.appendFileSync('/tmp/slow.log', `${Date.now() - t0}ms ${res} tmo=${timeout} n=${asserts.length} last=${asserts[asserts.length - 1].slice(0, 700)}\n` + new Error().stack.split('\n').slice(2, 7).map(x => x.trim().replace(/.*\/lib/, 'lib')).join(' < ') + '\n');
        this.stats.ms += Date.now() - t0;
        if (err) { const e = new Error('SMT error: ' + err + '\n' + body.slice(0, 4000)); e.smt = true; throw e; }
        return getValues ? { res, values } : res;
    }
    script(asserts, logic = 'ALL') {
        return `(set-logic ${logic})\n` + this.decls.join('\n') + '\n' + asserts.map(a => `(assert ${a})`).join('\n') + '\n(check-sat)\n';
    }
    // several solvers (and seeds) race on one query; the first definite answer counts
    oneshot(asserts, { timeout = 8000, engines = ['z3', 'z3:7', 'z3:23', 'cvc5'] } = {}) {
        timeout *= SLOW;
        const t0 = Date.now();
        const f = path.join(this.dir, 'q.smt2');
        fs.writeFileSync(f, this.script(asserts));
        if (process.env.VERIF_SLOWDUMP) fs.writeFileSync(`/tmp/slow/o${this.oneN = (this.oneN || 0) + 1}.smt2`, this.script(asserts));
        const sec = Math.ceil(timeout / 1000);
        const cmds = engines.map((e, i) => {
            const o = path.join(this.dir, 'o' + i);
            if (e === 'cvc5') { this.stats.oneshotCvc5++; return `${CVC5} --strings-exp --fp-exp --tlimit=${timeout} ${f} >${o} 2>/dev/null && grep -qE '^(un)?sat' ${o} && echo "$(head -1 ${o}) ${e}" >>${this.dir}/win`; }
            this.stats.oneshotZ3++;
            const seed = e.split(':')[1];
            return `${Z3} ${seed ? `smt.random_seed=${seed} sat.random_seed=${seed} ` : ''}-T:${sec} -memory:3000 ${f} >${o} 2>/dev/null; grep -qE '^(un)?sat' ${o} && echo "$(head -1 ${o}) ${e.split(':')[0]}" >>${this.dir}/win`;
        });
        try { fs.unlinkSync(path.join(this.dir, 'win')); } catch {}
        const script = cmds.map(c => `( ${c} ) & P="$P $!"`).join('\n') + `\nfor i in $(seq 1 ${Math.ceil(timeout / 50) + 40}); do [ -s ${this.dir}/win ] && break; sleep 0.05; A=0; for p in $P; do kill -0 $p 2>/dev/null && A=1; done; [ $A = 0 ] && break; done\nfor p in $P; do pkill -KILL -P $p 2>/dev/null; kill -KILL $p 2>/dev/null; done; true`;
        cp.spawnSync('bash', ['-c', script], { encoding: 'utf8' });
        let res = 'unknown', by = null;
        try { const [r, e] = fs.readFileSync(path.join(this.dir, 'win'), 'utf8').split('\n')[0].trim().split(' '); if (r === 'unsat' || r === 'sat') { res = r; by = e; } } catch {}
        this.stats.ms += Date.now() - t0;
        return { res, by };
    }
    // one short attempt by cvc5: decides at once what the incremental z3 loses itself in (strings under quantifiers)
    quick(asserts, timeout = 1500) {
        const t0 = Date.now();
        const f = path.join(this.dir, 'k.smt2');
        fs.writeFileSync(f, this.script(asserts));
        const o = cp.spawnSync(CVC5, ['--strings-exp', '--fp-exp', `--tlimit=${timeout * SLOW}`, f], { encoding: 'utf8' });
        this.stats.oneshotCvc5++; this.stats.queries++; this.stats.ms += Date.now() - t0;
        const ok = /^unsat/.test(o.stdout || '');
        if (process.env.VERIF_CAND) console.error('quick', ok, Date.now() - t0, asserts.length, asserts[asserts.length - 1].slice(0, 160), new Error().stack.split('\n')[2].replace(/.*lib/, ''));
        if (ok) this.by['cvc5-quick'] = (this.by['cvc5-quick'] || 0) + 1;
        return ok;
    }
    // prove: is the negated goal unsatisfiable under the hypotheses?
    prove(hyps, goal, opts = {}) {
        const neg = [...hyps, `(not ${goal})`];
        if (this.cvcFirst && this.quick(neg)) return { ok: true, res: 'unsat', by: 'cvc5-quick' };
        let r = this.check(neg, { timeout: opts.timeout || this.timeout });
        let by = 'z3-incremental';
        if (r === 'unknown' && !opts.fast) {
            const o = this.oneshot(neg, { timeout: opts.slowTimeout || 8000 });
            r = o.res; by = o.by ? o.by + '-oneshot' : by;
        }
        if (r === 'unsat') this.by[by] = (this.by[by] || 0) + 1;
        return { ok: r === 'unsat', res: r, by };
    }
    close() {
        try { this.proc.kill('SIGKILL'); } catch {}
        try { fs.closeSync(this.fdIn); fs.closeSync(this.fdOut); } catch {}
        try { fs.rmSync(this.dir, { recursive: true, force: true }); } catch {}
    }
}
module.exports = { Solver, Z3, CVC5 };
