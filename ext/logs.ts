// What the extension writes to its log, and what it must not.
import * as fc from 'fast-check';
import * as path from 'path';
import { activate } from '@extension/extension';
import { Prop, fail, finished, settle } from './engine';
import { current } from './mock/world';
import { Answer, Served, serve, withPlatform } from './downloads';
import { context, document, folder } from './host';

type Step = { do: 'trace'; to: boolean | null } | { do: 'reload' } | { do: 'save'; good: boolean } | { do: 'active' };

interface Case {
    trace: boolean | null;
    token: string | null;
    dove: boolean;
    server: boolean;
    /** Executables that are not configured and have yet to be downloaded, which fails each time. */
    absent: boolean;
    valid: boolean;
    /** The folder for executables cannot be made. */
    noStorage: boolean;
    good: boolean;
    status: number;
    releaseFaults: (number | null)[];
    answers: Answer[];
    steps: Step[];
}

const ENTRY = /^(DEBUG|INFO|WARN|ERROR)\b/;

export const logging: Prop<Case> = {
    id: 'C42',
    rule:
        'a case is the setting for the log, a stored token, which executables are configured, there, or cannot be downloaded, failing requests with the answers of the user, a manifest, and a ' +
        'history of changes of the setting, reloads and saved manifests; non-trivial: the setting changes, or a token is stored or entered',
    assumptions: ['the level is the first word of an entry; other than levels, numbers of statuses and given paths, the wording is not looked at'],
    runs: { quick: 12000, thorough: 200000 },
    arb: () => {
        const trace = () => fc.constantFrom(true, false, null);
        const token = () => fc.constantFrom('ghp_0c3f9d7e', 'zq/7+sec~et^', 'тайна-77', '9f86d081884c7d65', '');
        const answer = (): fc.Arbitrary<Answer> =>
            fc.oneof(
                { weight: 3, arbitrary: fc.constant({ pick: 'retry' as const }) },
                { weight: 4, arbitrary: fc.option(token(), { nil: null }).map((t) => ({ pick: 'token' as const, token: t })) },
                { weight: 1, arbitrary: fc.constantFrom({ pick: 'dismiss' as const }, { pick: 'close' as const }) }
            );
        const step = (): fc.Arbitrary<Step> =>
            fc.oneof(
                { weight: 4, arbitrary: trace().map((to) => ({ do: 'trace' as const, to })) },
                { weight: 2, arbitrary: fc.constant({ do: 'reload' as const }) },
                { weight: 2, arbitrary: fc.boolean().map((good) => ({ do: 'save' as const, good })) },
                { weight: 1, arbitrary: fc.constant({ do: 'active' as const }) }
            );
        return fc.record({
            trace: trace(),
            token: fc.option(token(), { nil: null }),
            dove: fc.boolean(),
            server: fc.boolean(),
            absent: fc.nat(3).map((n) => n === 3),
            valid: fc.nat(3).map((n) => n > 0),
            noStorage: fc.nat(7).map((n) => n === 7),
            good: fc.boolean(),
            status: fc.constantFrom(401, 403, 404, 500, 503),
            releaseFaults: fc.array(fc.option(fc.constantFrom(401, 403, 404, 429, 500, 503), { nil: null, freq: 2 }), { maxLength: 5 }),
            answers: fc.array(answer(), { maxLength: 6 }),
            steps: fc.array(step(), { maxLength: 6 }),
        });
    },
    run: async (c, ctx) => {
        const w = current.w;
        const storage = '/home/user/.config/storage';
        const project = '/w/project';
        const names = ['dove-linux-x86_64', 'move-language-server-linux-x86_64'];
        const s: Served = {
            assets: names.map((name) => ({ name, bytes: Buffer.from('content'), cuts: [] })),
            releaseFaults: c.releaseFaults.map((status) => (status === null ? { kind: 'network' as const } : { kind: 'status' as const, status })),
            assetFaults: Array.from({ length: 200 }, () => ({ kind: 'status' as const, status: c.status })),
            answers: [...c.answers],
            log: [],
            opened: 0,
        };
        serve(s);
        let manifest = c.good;
        const there = (p: string) => p === project + '/Dove.toml' || (!c.absent && names.includes(path.basename(p)));
        w.exists = (u) => there(u.path);
        w.makeDirectory = () => {
            if (c.noStorage) throw new Error('EACCES: no folder for executables');
        };
        w.versionOk = () => c.valid;
        w.program = () =>
            manifest
                ? { chunks: [[1, Buffer.from(JSON.stringify({ package: { name: 'p', local_dependencies: [], git_dependencies: [], dialect: 'pont', account_address: '0x1' }, layout: { modules_dir: '/m' } }))]], code: 0 }
                : { chunks: [[2, Buffer.from('Error: broken manifest')]], code: 1 };
        if (c.token !== null) w.globalState.set('githubToken', c.token);
        const doveAt = c.dove ? '/opt/tools/dove' : `${storage}/${names[0]}`;
        const serverAt = c.server ? '/opt/tools/server' : `${storage}/${names[1]}`;
        if (c.dove) w.settings['move.doveExecutablePath'] = doveAt;
        if (c.server) w.settings['move.languageServerPath'] = serverAt;
        const set = (to: boolean | null) => {
            if (to === null) delete w.settings['move.trace.extension'];
            else w.settings['move.trace.extension'] = to;
        };
        set(c.trace);
        w.folders = [folder(project, 0)];
        w.activeEditor = { document: document(project + '/modules/a.move', 'move') };

        const secrets = new Set<string>();
        const secret = (t: string | null | undefined) => {
            if (t) secrets.add(t);
        };
        secret(c.token);
        c.answers.forEach((a) => a.pick === 'token' && secret(a.token));
        ctx.class('a token', secrets.size > 0);
        ctx.nontrivial(secrets.size > 0 || c.steps.some((x) => x.do === 'trace'));

        /** Everything that follows from an event has happened. */
        const rest = async () => {
            for (let before = -1; ; ) {
                const now = w.log.length + w.fetched.length + w.spawned.length + w.questions.length + w.clients.length + s.log.length;
                if (now === before) return;
                before = now;
                for (let i = 0; i < 4; i++) await settle();
            }
        };
        let from = { log: 0, shown: 0, requests: 0, errors: 0 };
        const judge = (what: string, debug: 'all' | 'none' | 'any', failed: string | undefined, start: boolean) => {
            const entries = w.log.slice(from.log);
            for (const e of entries) if (!ENTRY.test(e)) fail(`an entry without a level: ${e}`);
            const of = (level: string) => entries.filter((e) => e.startsWith(level));
            if (debug === 'none' && of('DEBUG').length) fail(`${what}: logged although the trace is off: ${of('DEBUG')[0]}`);
            if (debug === 'all' && !of('DEBUG').length) fail(`${what}: nothing is traced`);
            const errors = of('ERROR');
            const shown = w.logShown - from.shown;
            if (errors.length && !shown) fail(`${what}: the log is not shown with ${errors[0]}`);
            if (!errors.length && shown) fail(`${what}: the log is shown without an error`);
            const requests = s.log.slice(from.requests);
            for (const r of requests) {
                if (!r.failed || r.status === undefined) continue;
                if (!errors.some((e) => e.includes(String(r.status)))) fail(`${what}: the status ${r.status} of ${r.url} is not logged: ${JSON.stringify(errors)}`);
                if (!errors.some((e) => e.includes(r.url!))) fail(`${what}: the failing request of ${r.url} is not logged: ${JSON.stringify(errors)}`);
            }
            ctx.class('a failing request', requests.some((r) => r.failed));
            // without a folder for executables, a first start shows the error but has nothing to log
            if (failed !== undefined && !(c.noStorage && !start) && !errors.some((e) => e.includes(failed))) fail(`${what}: the failure is not logged (${failed}): ${JSON.stringify(errors)}`);
            if (start && failed === undefined) {
                const used = [doveAt, serverAt];
                for (const p of used) if (!entries.some((e) => !e.startsWith('DEBUG') && e.includes(p))) fail(`${what}: the log does not name ${p}, which is used`);
                ctx.class('a start that succeeds');
            }
            // errors are for what fails
            if (errors.length && failed === undefined && !requests.some((r) => r.failed)) fail(`${what}: an error without a reason: ${errors[0]}`);
            from = { log: w.log.length, shown: w.logShown, requests: s.log.length, errors: w.errors.length };
        };
        /** What must be logged of a start that fails; one after the other if `single`. */
        const expected = (single = true): string | undefined => {
            const l = s.log.slice(from.requests);
            const i = l.findIndex((x) => x.what === 'dialog' && (x.answer!.pick === 'dismiss' || x.answer!.pick === 'close'));
            if (i >= 0) return !single ? '' : l[i - 1].status === undefined ? 'ENOTFOUND' : String(l[i - 1].status);
            return c.noStorage ? 'EACCES' : c.valid ? undefined : doveAt;
        };

        await withPlatform('linux', async () => {
            const ctxt = context(storage);
            const first = activate(ctxt).then(
                () => undefined,
                (e) => e
            );
            const reason = await finished('activation', first);
            await rest();
            let trace = c.trace === true;
            const want = expected();
            if (want !== undefined && !reason) fail('activation succeeds although the executables cannot be used');
            if (c.noStorage) {
                if (want && !w.errors.some((e) => e.includes('EACCES'))) fail('the failure of the activation is not shown');
            }
            judge('activation', trace ? 'all' : 'none', want, !c.noStorage);
            ctx.class('traced', trace);
            ctx.class('a start that fails', want !== undefined);
            for (const step of c.steps) {
                switch (step.do) {
                    case 'trace': {
                        const was = trace;
                        set(step.to);
                        trace = step.to === true;
                        w.fire('configuration', { affectsConfiguration: (k: string) => k === 'move' || k === 'move.trace' || k === 'move.trace.extension' });
                        await rest();
                        judge('a change of the setting', trace ? 'all' : was ? 'any' : 'none', expected(), true);
                        ctx.class('the trace is turned on', trace && !was);
                        ctx.class('the trace is turned off', !trace && was);
                        break;
                    }
                    case 'reload': {
                        void w.commands.get('move.reload')?.();
                        await rest();
                        judge('a reload', trace ? 'all' : 'none', expected(), true);
                        break;
                    }
                    case 'save': {
                        manifest = step.good;
                        w.fire('save', document(project + '/Dove.toml', 'toml'));
                        await rest();
                        judge('a saved manifest', trace ? 'all' : 'none', expected(false), false);
                        break;
                    }
                    case 'active': {
                        w.fire('activeEditor', w.activeEditor);
                        await rest();
                        judge('another document', trace ? 'any' : 'none', expected(), false);
                        break;
                    }
                }
                ctx.class('step: ' + step.do);
            }
        });
        const told: [string, string][] = [
            ...w.log.map((e): [string, string] => ['the log', e]),
            ...w.errors.map((e): [string, string] => ['an error message', e]),
            ...w.infos.map((e): [string, string] => ['a message', e]),
            ...w.questions.map((q): [string, string] => ['a question', JSON.stringify([q.message, q.items])]),
            ...w.progress.map((p): [string, string] => ['a progress bar', JSON.stringify(p)]),
            ...w.spawned.map((p): [string, string] => ['the arguments of a program', JSON.stringify(p)]),
            ...w.clients.map((x): [string, string] => ['the options of the server', JSON.stringify([x.name, x.serverOptions, x.clientOptions.initializationOptions])]),
            ...w.fetched.map((f): [string, string] => ['the address of a request', f.url]),
            ...w.boxes.map((b): [string, string] => ['the text of a box', JSON.stringify({ ...b, value: undefined })]),
        ];
        for (const t of secrets) {
            for (const [where, text] of told) {
                // not even a part of it
                if ([t.slice(0, 4), t.slice(-4), encodeURIComponent(t)].some((part) => text.includes(part))) fail(`the token is in ${where}: ${text}`);
            }
        }
        for (const b of w.boxes) if (b.password !== true) fail('the token is entered in a box that shows it');
    },
};
