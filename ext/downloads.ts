// Getting the executables: which one is used, how it is downloaded, what happens when that fails.
import * as fc from 'fast-check';
import * as fs from 'fs';
import * as path from 'path';
import { Readable } from 'stream';
import { bootstrap } from '@extension/components/bootstrap';
import { PersistentState } from '@extension/components/persistent_state';
import { Prop, fail, finished, same, settle } from './engine';
import { current } from './mock/world';
import { activate } from '@extension/extension';
import { context, document, folder } from './host';

export type Fault = { kind: 'status'; status: number } | { kind: 'network' } | { kind: 'body'; after: number } | { kind: 'storage' };
export type Answer = { pick: 'retry' } | { pick: 'dismiss' } | { pick: 'close' } | { pick: 'token'; token: string | null };

const RELEASE = /^https:\/\/api\.github\.com\/repos\/pontem-network\/move-tools\/releases\/tags\/([^/]+)$/;

export interface Log {
    what: 'release' | 'asset' | 'dialog' | 'input';
    url?: string;
    failed?: boolean;
    /** Of a response that is no success. */
    status?: number;
    auth?: string;
    answer?: Answer;
}

export interface Served {
    assets: { name: string; bytes: Buffer; cuts: number[] }[];
    releaseFaults: Fault[];
    assetFaults: Fault[];
    answers: Answer[];
    log: Log[];
    opened: number;
    /** Where files go, for faults of the storage. */
    storage?: string;
}

function pieces(bytes: Buffer, cuts: number[]): Buffer[] {
    const at = [...new Set(cuts.map((c) => c % bytes.length))].sort((a, b) => a - b);
    const parts: Buffer[] = [];
    let from = 0;
    for (const to of [...at, bytes.length]) {
        if (to > from) parts.push(bytes.subarray(from, to));
        from = Math.max(from, to);
    }
    return parts;
}

function response(status: number, bytes: Buffer, cuts: number[], failAfter?: number) {
    const parts = pieces(bytes, cuts);
    let i = 0;
    const body = new Readable({
        read() {
            setImmediate(() => {
                if (this.destroyed) return;
                if (failAfter !== undefined && i >= failAfter) return void this.destroy(new Error('connection lost'));
                this.push(i < parts.length ? parts[i++] : null);
            });
        },
    });
    const headers = new Map([['content-length', String(bytes.length)]]);
    const all = async () => {
        const got: Buffer[] = [];
        for await (const b of body) got.push(b as Buffer);
        return Buffer.concat(got);
    };
    return {
        ok: status >= 200 && status < 300,
        status,
        statusText: '',
        headers: { get: (k: string) => headers.get(k.toLowerCase()) ?? null, has: (k: string) => headers.has(k.toLowerCase()) },
        body,
        text: async () => (await all()).toString(),
        json: async () => JSON.parse((await all()).toString()),
        buffer: all,
    };
}

const statusOf = (f: Fault | undefined) => (f?.kind === 'status' ? f.status : undefined);

/** Serves a release and its assets with faults, and answers the dialogs. */
export function serve(s: Served) {
    const w = current.w;
    const faulty = (f: Fault | undefined, bytes: Buffer, cuts: number[]) => {
        if (f?.kind === 'network') return w.later('request', () => {
            throw new Error('getaddrinfo ENOTFOUND');
        });
        if (f?.kind === 'status') return w.later('request', () => response(f.status, Buffer.from('{"message":"no"}'), []));
        return w.later('request', () => response(200, bytes, cuts, f?.kind === 'body' ? f.after % pieces(bytes, cuts).length : undefined));
    };
    w.fetch = (url, headers) => {
        const release = RELEASE.exec(url);
        if (release) {
            const f = s.releaseFaults.shift();
            const fault = f?.kind === 'body' ? { kind: 'network' as const } : f;
            s.log.push({ what: 'release', url, failed: !!fault, status: statusOf(fault), auth: headers['authorization'] });
            const info = {
                name: release[1],
                id: 1,
                published_at: '2021-10-01T00:00:00Z',
                assets: s.assets.map((a) => ({ name: a.name, browser_download_url: 'https://github.com/d/' + encodeURIComponent(a.name) })),
            };
            return faulty(fault, Buffer.from(JSON.stringify(info)), []);
        }
        const asset = s.assets.find((a) => url === 'https://github.com/d/' + encodeURIComponent(a.name));
        if (!asset) fail(`something else is requested: ${url}`);
        if (headers['authorization'] !== undefined) fail('the token is sent with the request for a file');
        const fault = s.assetFaults.shift();
        s.opened += 1;
        s.log.push({ what: 'asset', url, failed: !!fault, status: statusOf(fault) });
        if (fault?.kind === 'storage') fs.renameSync(s.storage!, s.storage + '.away');
        return faulty(fault, asset.bytes, asset.cuts);
    };
    let last: Answer | undefined;
    w.choose = (message, items) => {
        // messages without choices are no questions
        if (items.length === 0) return undefined;
        if (s.storage && fs.existsSync(s.storage + '.away')) fs.renameSync(s.storage + '.away', s.storage);
        const answer = s.answers.shift() ?? { pick: 'dismiss' as const };
        s.log.push({ what: 'dialog', answer });
        last = answer;
        const title = { retry: /retry/i, token: /token/i, dismiss: /dismiss/i, close: /^$/ }[answer.pick];
        const item = items.find((i: any) => title.test(i.title ?? i));
        if (!item && answer.pick !== 'close') fail(`the dialog has no choice for ${answer.pick}: ${JSON.stringify(items)}`);
        return item;
    };
    w.input = () => {
        s.log.push({ what: 'input', answer: last });
        return last?.pick === 'token' && last.token !== null ? last.token : undefined;
    };
    w.exists = (u) => fs.existsSync(u.path);
    w.makeDirectory = (p) => fs.mkdirSync(p, { recursive: true });
}

/** Requests, failures, dialogs and retries follow each other as they must. */
function judge(log: Log[], token: string | undefined): { dismissed: boolean; token: string | undefined } {
    for (let i = 0; i < log.length; i++) {
        const l = log[i];
        if (l.what === 'release') same('the authorization of a request', l.auth ?? null, token === undefined ? null : 'token ' + token);
        if (l.what === 'dialog' && !(i > 0 && log[i - 1].failed)) fail('a dialog without a failed request');
        if (l.what === 'input') fail('a token is asked for unasked');
        if (!l.failed) continue;
        const d = log[i + 1];
        if (d?.what !== 'dialog') fail(`a failed request is not followed by a dialog: ${JSON.stringify(log)}`);
        let next = i + 2;
        const answer = d.answer!;
        if (answer.pick === 'dismiss' || answer.pick === 'close') {
            if (log.length > next) fail(`something goes on after the download was given up: ${JSON.stringify(log.slice(next))}`);
            return { dismissed: true, token };
        }
        if (answer.pick === 'token') {
            if (log[next]?.what !== 'input') fail('no token is asked for');
            if (answer.token !== null) token = answer.token === '' ? undefined : answer.token;
            next += 1;
        }
        if (log[next]?.url !== l.url) fail(`the request is not repeated: ${JSON.stringify(log)}`);
        i = next - 1;
    }
    return { dismissed: false, token };
}

const fault = (): fc.Arbitrary<Fault> =>
    fc.oneof(
        fc.constantFrom(401, 403, 404, 429, 500, 503).map((status) => ({ kind: 'status' as const, status })),
        fc.constant({ kind: 'network' as const }),
        fc.nat(20).map((after) => ({ kind: 'body' as const, after }))
    );
const token = () => fc.constantFrom('', 'ghp_abc', 'x', 'b2c');
const answer = (): fc.Arbitrary<Answer> =>
    fc.oneof(
        { weight: 5, arbitrary: fc.constant({ pick: 'retry' as const }) },
        { weight: 3, arbitrary: fc.option(token(), { nil: null }).map((t) => ({ pick: 'token' as const, token: t })) },
        { weight: 1, arbitrary: fc.constantFrom({ pick: 'dismiss' as const }, { pick: 'close' as const }) }
    );

export async function withPlatform<T>(platform: string, f: () => Promise<T>): Promise<T> {
    const before = Object.getOwnPropertyDescriptor(process, 'platform')!;
    Object.defineProperty(process, 'platform', { ...before, value: platform });
    try {
        return await f();
    } finally {
        Object.defineProperty(process, 'platform', before);
    }
}

let counter = 0;

// ---------------------------------------------------------------- downloads

interface Download {
    size: number;
    fill: number;
    cuts: number[];
    faults: (Fault | null)[];
    answers: Answer[];
    windows: number;
}

export const downloads: Prop<Download> = {
    id: 'C33',
    rule:
        'a case is a file of 1 to 300000 bytes that arrives in generated pieces, the requests that fail (by status, without a connection, in the middle of the ' +
        'file, or as nothing can be stored), what the user answers, and one or two windows that download at the same time; non-trivial: the file arrives in several pieces or a request fails',
    assumptions: ['the network is a stand-in whose bodies end with an error when the connection is lost; files are real', 'the destination is looked at between any two pieces and on every turn of the event loop'],
    runs: { quick: 6000, thorough: 100000 },
    arb: () =>
        fc.record({
            size: fc.oneof(fc.integer({ min: 1, max: 300 }), fc.integer({ min: 1, max: 300000 })),
            fill: fc.nat(255),
            cuts: fc.array(fc.nat(300000), { maxLength: 30 }),
            faults: fc.array(fc.option(fc.oneof({ weight: 6, arbitrary: fault() }, { weight: 1, arbitrary: fc.constant({ kind: 'storage' as const }) }), { nil: null, freq: 3 }), { maxLength: 4 }),
            answers: fc.array(answer(), { maxLength: 6 }),
            windows: fc.nat(3).map((n) => (n === 3 ? 2 : 1)),
        }),
    run: async (c, ctx) => {
        const w = current.w;
        const base = path.join(ctx.scratch, String(counter++));
        const storage = path.join(base, 'storage');
        fs.mkdirSync(storage, { recursive: true });
        const bytes = Buffer.alloc(c.size);
        for (let i = 0; i < c.size; i++) bytes[i] = (c.fill + i * 31 + (i >> 8)) & 255;
        // a file that the fault is not for is served whole
        const faults = c.faults.filter((f): f is Fault => f !== null && !(f.kind === 'storage' && c.windows > 1));
        const s: Served = { assets: [{ name: 'dove-linux-x86_64', bytes, cuts: c.cuts }], releaseFaults: [], assetFaults: faults, answers: c.answers, log: [], opened: 0, storage };
        serve(s);
        w.settings['move.languageServerPath'] = '/opt/ls';
        const dest = path.join(storage, 'dove-linux-x86_64');
        ctx.nontrivial(pieces(bytes, c.cuts).length > 1 || faults.length > 0);
        ctx.class('request that fails', faults.length > 0);
        ctx.class('fails in the middle', faults.some((f) => f.kind === 'body'));
        ctx.class('the storage fails', faults.some((f) => f.kind === 'storage'));
        ctx.class('two windows', c.windows === 2);
        ctx.class('large file', c.size > 70000);
        const before = faults.length;
        try {
            const look = () => {
                let st: fs.Stats;
                try {
                    st = fs.statSync(dest);
                } catch {
                    return false;
                }
                if (st.size !== bytes.length || !fs.readFileSync(dest).equals(bytes)) fail(`the destination holds ${st.size} bytes of a file of ${bytes.length}`);
                if ((st.mode & 0o777) !== (0o755 & ~process.umask())) fail(`the destination has mode ${(st.mode & 0o777).toString(8)}`);
                return true;
            };
            let done = false;
            const state = () => new PersistentState(context(storage).globalState);
            const all = withPlatform('linux', () =>
                finished('the download', Promise.allSettled(Array.from({ length: c.windows }, () => bootstrap(context(storage), state()))))
            ).finally(() => (done = true));
            while (!done) {
                look();
                await new Promise((r) => setImmediate(r));
            }
            const results = await all;
            await settle();
            const there = look();
            if (c.windows === 1) {
                const { dismissed } = judge(s.log, undefined);
                ctx.class('given up', dismissed);
                ctx.class('succeeds after a failure', !dismissed && before > 0);
                const r = results[0];
                if (dismissed) {
                    same('the result of a download that was given up', r.status, 'rejected');
                    if (there) fail('a file is there although the download was given up');
                } else if (r.status === 'rejected') fail(`the download fails: ${r.reason?.message}`);
            }
            for (const r of results) {
                if (r.status !== 'fulfilled') continue;
                same('the path of the executable', r.value.doveExecutablePath, dest);
                if (!there) fail('the executable is not there');
            }
            if (results.every((r) => r.status === 'rejected') && there) fail('a file is there although every download was given up');
            // progress: in order, adding up to the whole
            for (const p of w.progress) {
                let sum = 0;
                for (const r of p.reports) {
                    if (!(r.increment > 0)) fail(`progress goes on by ${r.increment}`);
                    sum += r.increment;
                    same('the progress shown', r.message, `${sum}%`);
                }
                if (sum > 100) fail(`progress adds up to ${sum}%`);
            }
            if (c.windows === 1 && there && w.progress.length) {
                const last = w.progress[w.progress.length - 1];
                same('the progress at the end', last.reports.reduce((n, r) => n + r.increment, 0), 100);
            }
        } finally {
            fs.rmSync(base, { recursive: true, force: true });
        }
    },
};

// -------------------------------------------------------------- executables

interface Executables {
    how: 'asked' | 'activation';
    platform: string;
    dove: string;
    server: string;
    assets: { binary: string; system: string; rest: string }[];
    style: number;
    present: string[];
    valid: boolean;
    token: string | null;
    releaseFaults: Fault[];
    assetFaults: Fault[];
    answers: Answer[];
}

const LABEL: Record<string, string> = { win32: 'win', linux: 'linux', darwin: 'darwin' };
const SYSTEMS = ['linux', 'win', 'darwin'];

function assetName(a: { binary: string; system: string; rest: string }, style: number): string {
    const exe = a.system === 'win' ? '.exe' : '';
    const sep = style & 1 ? '_' : '-';
    const system = a.system === 'win' && style & 2 ? 'windows' : a.system;
    return style & 4 ? `${a.binary}${sep}${a.rest}${sep}${system}${exe}` : `${a.binary}${sep}${system}${sep}${a.rest}${exe}`;
}

export const executables: Prop<Executables> = {
    id: 'C34',
    rule:
        'a case is a platform, the configured paths (none, absolute, below the home directory), a release whose assets come in a generated order and naming style, the ' +
        'executables that are there already, a stored token, failing requests and the answers to dialogs, and whether the Dove that is found works; non-trivial: at ' +
        'least one executable is not configured',
    assumptions: ['a release has at most one asset for each program and system, whose name starts with the program and has the system as a separate word'],
    runs: { quick: 20000, thorough: 400000 },
    arb: () =>
        fc.record({
            how: fc.constantFrom('asked' as const, 'asked' as const, 'activation' as const),
            platform: fc.oneof({ weight: 8, arbitrary: fc.constantFrom('linux', 'win32', 'darwin') }, { weight: 1, arbitrary: fc.constantFrom('freebsd', 'sunos') }),
            dove: fc.constantFrom('', '', '', '/opt/dove', '~/bin/dove', '~/а б/dove', '~/a~b/~/dove', 'dove', '~other/dove', '/a/~/dove'),
            server: fc.constantFrom('', '', '', '/opt/ls', '~/ls', 'move-language-server', '/home/u/~/x'),
            assets: fc
                .tuple(
                    fc.shuffledSubarray(
                        ['dove', 'move-language-server', 'move-resource-viewer', 'new-dove'].flatMap((binary) => SYSTEMS.map((system) => ({ binary, system }))),
                        { minLength: 4 }
                    ),
                    fc.constantFrom('x86_64', '1.2.2', 'amd64')
                )
                .map(([l, rest]) => l.map((a) => ({ ...a, rest }))),
            style: fc.nat(7),
            present: fc.subarray(['dove', 'move-language-server']),
            valid: fc.nat(9).map((n) => n > 0),
            token: fc.option(fc.constantFrom('t0', 'ghp_1'), { nil: null }),
            releaseFaults: fc.array(fault(), { maxLength: 2 }),
            assetFaults: fc.array(fault(), { maxLength: 2 }),
            answers: fc.array(answer(), { maxLength: 5 }),
        }),
    run: async (c, ctx) => {
        const w = current.w;
        const base = path.join(ctx.scratch, String(counter++));
        const storage = path.join(base, 'storage');
        fs.mkdirSync(base, { recursive: true });
        const names = c.assets.map((a) => assetName(a, c.style));
        const s: Served = {
            assets: names.map((name) => ({ name, bytes: Buffer.from('content of ' + name), cuts: [5] })),
            releaseFaults: [...c.releaseFaults],
            assetFaults: [...c.assetFaults],
            answers: [...c.answers],
            log: [],
            opened: 0,
        };
        serve(s);
        if (c.token !== null) w.globalState.set('githubToken', c.token);
        if (c.dove) w.settings['move.doveExecutablePath'] = c.dove;
        if (c.server) w.settings['move.languageServerPath'] = c.server;
        const home = process.env.HOME;
        process.env.HOME = path.join(base, 'home');
        try {
            const label = LABEL[c.platform];
            const pick = (binary: string) => names[c.assets.findIndex((a) => a.binary === binary && a.system === label)];
            const old = 'was there before';
            const wanted: { path: string | undefined; asset?: string; present: boolean }[] = [
                [c.dove, 'dove'],
                [c.server, 'move-language-server'],
            ].map(([configured, binary]) => {
                if (configured) return { path: configured.startsWith('~/') ? process.env.HOME + configured.slice(1) : configured, present: false };
                const asset = label && pick(binary);
                if (!asset) return { path: undefined, present: false };
                const dest = path.join(storage, asset);
                const present = c.present.includes(binary);
                if (present) {
                    fs.mkdirSync(storage, { recursive: true });
                    fs.writeFileSync(dest, old);
                }
                return { path: dest, asset, present };
            });
            const asked: string[] = [];
            w.versionOk = (p) => (asked.push(p), c.valid);
            ctx.nontrivial(!c.dove || !c.server);
            const project = '/w/p';
            if (c.how === 'activation') {
                w.folders = [folder(project, 0)];
                w.activeEditor = { document: document(project + '/modules/a.move', 'move') };
                const files = w.exists;
                w.exists = (u) => u.path === project + '/Dove.toml' || files(u);
                w.program = (command) =>
                    command === wanted[0].path
                        ? { chunks: [[1, Buffer.from(JSON.stringify({ package: { name: 'p', local_dependencies: [], git_dependencies: [], dialect: 'pont', account_address: '0x1' }, layout: { modules_dir: '/m' } }))]], code: 0 }
                        : { error: 'ENOENT' };
            }
            const look = async () => {
                if (c.how === 'asked') return bootstrap(context(storage), new PersistentState(context(storage).globalState));
                await activate(context(storage));
                same('the number of servers after activation', w.running().length, 1);
                return { doveExecutablePath: w.spawned[0].command, languageServerPath: w.running()[0].serverOptions.run.command };
            };
            const result = await withPlatform(c.platform, () =>
                finished(
                    'looking for the executables',
                    look().then(
                        (value) => ({ value, reason: undefined as any }),
                        (reason) => ({ value: undefined, reason })
                    )
                )
            );
            await settle();
            const { dismissed, token } = judge(s.log, c.token ?? undefined);
            same('the token that is stored', w.globalState.get('githubToken') ?? null, token ?? null);
            const impossible = wanted.some((x) => x.path === undefined);
            ctx.class('no executable for the platform', impossible);
            ctx.class('given up', dismissed);
            ctx.class('both configured', !!c.dove && !!c.server);
            ctx.class('already there', wanted.some((x) => x.present));
            ctx.class('windows', c.platform === 'win32');
            ctx.class('downloaded', s.log.some((l) => l.what === 'asset' && !l.failed));
            ctx.class('token given', s.log.some((l) => l.what === 'input'));
            if (c.dove && c.server) same('requests although both paths are configured', s.log, []);
            for (const l of s.log) {
                if (l.what !== 'asset') continue;
                const name = decodeURIComponent(l.url!.slice('https://github.com/d/'.length));
                if (!wanted.some((x) => x.asset === name)) fail(`${name} is downloaded on ${c.platform}`);
                if (wanted.some((x) => x.asset === name && x.present)) fail(`${name} is downloaded although it is there`);
            }
            if (impossible || dismissed || !c.valid) {
                if (!result.reason) fail(`${JSON.stringify(result.value)} although ${impossible ? 'there is none for the platform' : dismissed ? 'the download was given up' : 'dove does not work'}`);
                if (c.how === 'activation') {
                    ctx.class('activation fails');
                    same('the servers after an activation that failed', w.running().length, 0);
                    if (!w.errors.some((e) => e.includes(result.reason.message))) fail(`nobody is told that activation failed: ${JSON.stringify(w.errors)}`);
                }
                if (!label && w.errors.length === 0 && !(c.dove && c.server)) fail('nothing is shown on a platform without executables');
            } else {
                if (result.reason) fail(`the executables are not found: ${result.reason.message}`);
                same('the path of dove', result.value!.doveExecutablePath, wanted[0].path);
                same('the path of the language server', result.value!.languageServerPath, wanted[1].path);
                if (!asked.includes(wanted[0].path!)) fail('dove is not tried');
                for (const x of wanted) {
                    if (!x.asset) continue;
                    const got = fs.readFileSync(x.path!, 'utf8');
                    same('the content of the executable', got, x.present ? old : 'content of ' + x.asset);
                    if (!x.present && (fs.statSync(x.path!).mode & 0o111) !== 0o111) fail('the download cannot be executed');
                }
            }
        } finally {
            process.env.HOME = home;
            fs.rmSync(base, { recursive: true, force: true });
        }
    },
};
