import * as fc from 'fast-check';
import * as fs from 'fs';
import * as os from 'os';
import * as path from 'path';
import * as crypto from 'crypto';
import { current, World } from './mock/world';
const cp: any = (process as any).getBuiltinModule('child_process');

export class Ctx {
    nontrivialCase = false;
    classes: string[] = [];
    scratch = '';
    nontrivial(yes: boolean) {
        if (yes) this.nontrivialCase = true;
    }
    class(name: string, when = true) {
        if (when && !this.classes.includes(name)) this.classes.push(name);
    }
}

export interface Prop<C> {
    id: string;
    rule: string;
    assumptions: string[];
    runs: { quick: number; thorough: number };
    fixed?: C[];
    arb: () => fc.Arbitrary<C>;
    run: (c: C, ctx: Ctx) => Promise<void>;
}

export class Violation extends Error {}
export function fail(message: string): never {
    throw new Violation(message);
}
export function same(what: string, got: unknown, want: unknown) {
    const g = JSON.stringify(got);
    const w = JSON.stringify(want);
    if (g !== w) fail(`${what}\n  is      ${g}\n  instead of ${w}`);
}

/** Everything that happens by itself has happened. */
export async function settle() {
    for (let i = 0; i < 12; i++) await new Promise((r) => setImmediate(r));
}
/** Waits for `done`, which may depend on timers of the machine; gives up after 30 s. */
export async function finished<T>(what: string, p: Promise<T>): Promise<T> {
    let timer: any;
    const limit = new Promise<never>((_, reject) => {
        timer = setTimeout(() => reject(new Violation(`${what} does not end`)), 30_000);
    });
    try {
        return await Promise.race([p, limit]);
    } finally {
        clearTimeout(timer);
    }
}

const CASE_LIMIT_MS = 60_000;
const SHRINK_MS = 20_000;

const dir = process.env.VERIF_DIR ?? '/verif';
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED ?? 1) || 1;

function digest(s: string): string {
    return crypto.createHash('sha256').update(s).digest('hex').slice(0, 16);
}
function seedOf(id: string, k: number): number {
    return parseInt(digest(`${id}/${seed}/${k}`).slice(0, 8), 16) | 0;
}

async function runCase<C>(prop: Prop<C>, c: C, scratch: string): Promise<{ ctx: Ctx; message?: string }> {
    const ctx = new Ctx();
    ctx.scratch = scratch;
    const w = new World();
    current.w = w;
    current.loaded = true;
    const onUncaught = (e: any) => w.uncaught.push(String(e?.stack ?? e));
    process.on('uncaughtException', onUncaught);
    try {
        await prop.run(c, ctx);
        if (w.uncaught.length) return { ctx, message: `an exception that nothing catches: ${w.uncaught[0]}` };
        return { ctx };
    } catch (e: any) {
        const message = e instanceof Violation ? e.message : `unexpected exception: ${e?.stack ?? e}`;
        return { ctx, message };
    } finally {
        process.removeListener('uncaughtException', onUncaught);
    }
}

async function worker<C>(prop: Prop<C>, k: number, of: number, out: string) {
    process.on('unhandledRejection', () => {});
    const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `vp-${prop.id}-`));
    const stats = { evaluations: 0, keys: [] as string[], classes: {} as Record<string, number>, samples: [] as string[], fixed: 0 };
    const seen = new Set<string>();
    let failing = false;
    let found: { case: C; message: string } | undefined;
    const one = async (c: C) => {
        fs.writeFileSync(out + '.now', JSON.stringify(c));
        const r = await runCase(prop, c, scratch);
        if (!failing) {
            stats.evaluations += 1;
            for (const name of r.ctx.classes) stats.classes[name] = (stats.classes[name] ?? 0) + 1;
            const text = JSON.stringify(c);
            const key = digest(text);
            if (r.ctx.nontrivialCase && !seen.has(key)) {
                seen.add(key);
                stats.keys.push(key);
                if (stats.samples.length < 2 && text.length < 1500) stats.samples.push(text);
            }
        }
        if (r.message) {
            failing = true;
            found = { case: c, message: r.message };
        }
        return r.message;
    };
    try {
        if (k === 0) {
            for (const c of prop.fixed ?? []) {
                stats.fixed += 1;
                if ((await one(c)) !== undefined) break;
            }
        }
        if (!failing) {
            let shrinkUntil = 0;
            const p = fc.asyncProperty(prop.arb(), async (c) => {
                if (shrinkUntil && Date.now() > shrinkUntil) return;
                const m = await one(c);
                if (m !== undefined) {
                    if (!shrinkUntil) shrinkUntil = Date.now() + SHRINK_MS;
                    throw new Error(m);
                }
            });
            const n = Math.ceil(prop.runs[tier] / of);
            await fc.check(p, { numRuns: n, seed: seedOf(prop.id, k) });
        }
        fs.writeFileSync(out, JSON.stringify({ stats, found }));
    } finally {
        fs.rmSync(scratch, { recursive: true, force: true });
    }
    process.exit(0);
}

function write(file: string, v: unknown) {
    fs.mkdirSync(path.dirname(file), { recursive: true });
    fs.writeFileSync(file, JSON.stringify(v, null, 2) + '\n');
}

async function supervise<C>(prop: Prop<C>): Promise<number> {
    const t0 = Date.now();
    const of = 6;
    const tmp = fs.mkdtempSync(path.join(os.tmpdir(), `vp-${prop.id}-run-`));
    const results = await Promise.all(
        Array.from({ length: of }, (_, k) => {
            const out = path.join(tmp, `w${k}`);
            return new Promise<any>((resolve) => {
                const child = cp.spawn(process.execPath, [process.argv[1], prop.id, '--worker', String(k), String(of), out], {
                    stdio: ['ignore', 'ignore', 'pipe'],
                    env: { ...process.env, TMPDIR: tmp },
                });
                let stderr = '';
                let stuck = false;
                child.stderr.setEncoding('utf8').on('data', (d: string) => (stderr = (stderr + d).slice(-4000)));
                let last = '';
                let since = Date.now();
                const watch = setInterval(() => {
                    let now = '';
                    try {
                        const s = fs.statSync(out + '.now');
                        now = `${s.mtimeMs}/${s.size}`;
                    } catch {}
                    if (now !== last) [last, since] = [now, Date.now()];
                    else if (Date.now() - since > CASE_LIMIT_MS) {
                        stuck = true;
                        child.kill('SIGKILL');
                    }
                }, 1000);
                child.on('close', (code: number) => {
                    clearInterval(watch);
                    try {
                        if (code === 0) return resolve(JSON.parse(fs.readFileSync(out, 'utf8')));
                    } catch {}
                    let c: any;
                    try {
                        c = JSON.parse(fs.readFileSync(out + '.now', 'utf8'));
                    } catch {}
                    if (c === undefined) return resolve({ error: `a worker ended with ${code}: ${stderr}` });
                    resolve({ found: { case: c, message: stuck ? 'the case does not end' : `the extension host ended (${code}): ${stderr}` } });
                });
            });
        })
    );
    fs.rmSync(tmp, { recursive: true, force: true });
    const classes: Record<string, number> = {};
    const keys = new Set<string>();
    const samples: string[] = [];
    let evaluations = 0;
    let fixed = 0;
    for (const r of results) {
        if (!r.stats) continue;
        evaluations += r.stats.evaluations;
        fixed += r.stats.fixed;
        for (const [n, v] of Object.entries(r.stats.classes)) classes[n] = (classes[n] ?? 0) + (v as number);
        r.stats.keys.forEach((x: string) => keys.add(x));
        if (samples.length < 4) samples.push(...r.stats.samples.slice(0, 1));
    }
    const found = results.map((r) => r.found).filter(Boolean).sort((a, b) => JSON.stringify(a.case).length - JSON.stringify(b.case).length);
    write(path.join(dir, 'evidence', `${prop.id}.json`), {
        property: prop.id,
        tier,
        seed,
        level: 'exploration',
        coverage: {
            evaluations,
            distinct_nontrivial: keys.size,
            rule: prop.rule,
            samples,
            fixed_cases: fixed,
            complete: found.length === 0,
            classes: Object.fromEntries(Object.entries(classes).sort()),
        },
        assumptions: prop.assumptions,
        wall_s: (Date.now() - t0) / 1000,
        violations: found.length ? 1 : 0,
    });
    if (found.length) {
        const f = found[0];
        const file = path.join(dir, 'replays', `${prop.id}-${digest(JSON.stringify(f.case)).slice(0, 8)}.json`);
        write(file, { property: prop.id, case: f.case, message: f.message });
        console.log(f.message);
        console.log(JSON.stringify(f.case).slice(0, 4000));
        console.log(`VIOLATION property=${prop.id} replay=${file}`);
        return 1;
    }
    const error = results.find((r) => r.error);
    if (error) {
        console.log('ERROR: ' + error.error);
        return 3;
    }
    console.log(`${prop.id}: held on ${evaluations} cases (${keys.size} distinct non-trivial, ${fixed} fixed) in ${((Date.now() - t0) / 1000).toFixed(1)} s`);
    return 0;
}

async function replay<C>(prop: Prop<C>, file: string): Promise<number> {
    process.on('unhandledRejection', () => {});
    const v = JSON.parse(fs.readFileSync(file, 'utf8'));
    const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `vp-${prop.id}-`));
    const timer = setTimeout(() => {}, CASE_LIMIT_MS);
    const r = await runCase(prop, v.case, scratch);
    clearTimeout(timer);
    fs.rmSync(scratch, { recursive: true, force: true });
    if (r.message === undefined) {
        console.log('passed');
        return 0;
    }
    console.log(r.message);
    console.log(JSON.stringify(v.case));
    console.log(`VIOLATION property=${prop.id} replay=${file}`);
    return 1;
}

export async function main(props: Prop<any>[]) {
    const [id, flag, ...rest] = process.argv.slice(2);
    const prop = props.find((p) => p.id === id);
    if (!prop) {
        console.log('usage: pbt.js ID [--replay FILE]');
        process.exit(2);
    }
    if (flag === '--worker') await worker(prop, Number(rest[0]), Number(rest[1]), rest[2]);
    else if (flag === '--replay') process.exit(await replay(prop, rest[0]));
    else process.exit(await supervise(prop));
}
