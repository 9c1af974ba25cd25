// One language server per project, started and stopped with what it belongs to.
import * as fc from 'fast-check';
import { activate } from '@extension/extension';
import { ClientWorkspaceFactory } from '@extension/components/ws';
import { PersistentState } from '@extension/components/persistent_state';
import { Prop, fail, finished, same, settle } from './engine';
import { Uri, workspace } from './mock/vscode';
import { World, current } from './mock/world';
import { context, document, folder, optionsFor, sorted } from './host';

const SERVER = '/opt/bin/move-language-server';
const DOVE = '/opt/bin/dove';

function metaFor(project: string, version: number) {
    return {
        package: {
            name: project,
            account_address: '0x' + version,
            authors: [],
            blockchain_api: null,
            local_dependencies: [project + '/dep' + version],
            git_dependencies: [],
            dialect: ['diem', 'dfinance', 'pont'][version % 3],
        },
        layout: { modules_dir: project + '/modules' },
    };
}

/** Whether a glob of the kind used in document selectors matches a path. */
function matches(glob: string, path: string): boolean {
    let re = '';
    for (let i = 0; i < glob.length; i++) {
        if (glob.startsWith('/**/', i)) [re, i] = [re + '/(?:.*/)?', i + 3];
        else if (glob.startsWith('**', i)) [re, i] = [re + '.*', i + 1];
        else if (glob[i] === '*') re += '[^/]*';
        else re += glob[i].replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
    }
    return new RegExp(`^${re}$`).test(path);
}

function folderOf(w: World, client: any): any {
    return w.folders.find((f) => f === client.clientOptions.workspaceFolder) ?? fail('a client without a workspace folder');
}

/** At most one client runs for a folder, and each is started as it must be. */
function watch(w: World, seen: Map<any, any>, program = SERVER) {
    const running = new Set<any>();
    for (const c of w.running()) {
        const f = folderOf(w, c);
        if (running.has(f)) fail(`two language servers run for ${f.uri.path}`);
        running.add(f);
    }
    for (const c of w.clients) {
        if (!c.started || seen.has(c)) continue;
        if (c.started > 1) fail('a client is started twice');
        const f = folderOf(w, c);
        seen.set(c, f);
        const p = f.uri.path;
        for (const side of ['run', 'debug']) {
            if (!c.serverOptions[side].command.startsWith(program)) fail(`the program of the server is ${c.serverOptions[side].command}`);
            same('the folder the server runs in', c.serverOptions[side].options?.cwd, p);
        }
        const selects = (scheme: string, language: string, path: string) =>
            c.clientOptions.documentSelector.some((s: any) => (!s.scheme || s.scheme === scheme) && (!s.language || s.language === language) && (!s.pattern || matches(s.pattern, path)));
        if (!selects('file', 'move', p + '/a.move') || !selects('file', 'move', p + '/a/b/c.move')) fail('a Move document of the project is not given to the server');
        if (selects('git', 'move', p + '/a.move') || selects('file', 'toml', p + '/a.toml') || selects('file', 'move', '/elsewhere/a.move') || selects('file', 'move', p + 'x/a.move'))
            fail('a document that is not a Move file of the project is given to the server');
    }
}

/** Only the program that is configured can be run. */
function onlyDove(w: World, answer: (cwd: string) => ReturnType<World['program']>) {
    const there = (command: string) => command === w.settings['move.doveExecutablePath'];
    w.versionOk = there;
    w.program = (command, args, cwd) => {
        if (!there(command)) return { error: 'ENOENT' };
        same('what Dove is asked', args, ['metadata']);
        return answer(cwd);
    };
}

async function tasks(w: World, paths: string[], dove = DOVE) {
    const got: any[] = [];
    for (const { type, provider } of w.taskProviders) {
        for (const t of await provider.provideTasks())
            got.push([type, t.scope.uri.path, t.execution.options.cwd, t.execution.command, t.execution.args, t.group, t.definition.type, t.definition.subcommand]);
    }
    const want = paths.flatMap((p) => ['build', 'test'].map((s) => ['dove', p, p, dove, [s], s, 'dove', s]));
    const by = (l: any[]) => l.map((x) => JSON.stringify(x)).sort();
    same('the tasks that are offered', by(got), by(want));
}

interface Doc {
    folder: number;
    kind: 'move' | 'manifest' | 'other' | 'diff' | 'outside';
}
function docOf(d: Doc, folders: any[]) {
    const f = folders[d.folder % folders.length];
    const scheme = f.uri.scheme;
    switch (d.kind) {
        case 'move':
            return document(f.uri.path + '/modules/a.move', 'move', scheme);
        case 'manifest':
            return document(f.uri.path + '/Dove.toml', 'toml', scheme);
        case 'other':
            return document(f.uri.path + '/README.md', 'markdown', scheme);
        case 'diff':
            return document(f.uri.path + '/modules/a.move', 'move', 'git');
        case 'outside':
            return document('/elsewhere/a.move', 'move');
    }
}
const doc = () => fc.record({ folder: fc.nat(4), kind: fc.oneof({ weight: 6, arbitrary: fc.constant('move' as const) }, { weight: 4, arbitrary: fc.constantFrom('manifest' as const, 'other' as const, 'diff' as const, 'outside' as const) }) });

async function proceed(w: World, n: number) {
    if (w.pending.length) w.pending.splice(n % w.pending.length, 1)[0].go();
    await settle();
}
async function drain(w: World) {
    for (let i = 0; ; i++) {
        await settle();
        if (w.pending.length === 0) return;
        if (i > 5000) fail('it never comes to rest');
        w.pending.shift()!.go();
    }
}

// ---------------------------------------------------------------- C35

interface Single {
    folders: { path: string; manifest: 'ok' | 'bad' | 'none'; remote: boolean }[];
    steps: ({ do: 'open'; doc: Doc } | { do: 'go'; n: number } | { do: 'rest' })[];
    dispose: boolean;
}

export const workspaces: Prop<Single> = {
    id: 'C35',
    rule:
        'a case is one to five workspace folders (nested or not, with a good, a bad or no manifest, local or remote), the documents that become active in them, the order in ' +
        'which pending file checks, program outputs and dialogs come to an end, and whether the extension is disposed of somewhere in between; non-trivial: two ' +
        'documents, or disposal, while something is pending',
    assumptions: ['the editor, the language client and Dove are stand-ins; every order of their answers that the case chooses is possible', 'stopping a client does not fail'],
    runs: { quick: 24000, thorough: 500000 },
    arb: () =>
        fc.record({
            folders: fc.shuffledSubarray(['/w/a', '/w/b', '/w/a/inner', '/w/проект', '/w/a b'], { minLength: 1 }).chain((paths) =>
                fc.tuple(
                    ...paths.map((path) =>
                        fc.record({
                            path: fc.constant(path),
                            manifest: fc.oneof({ weight: 5, arbitrary: fc.constant('ok' as const) }, { weight: 2, arbitrary: fc.constantFrom('bad' as const, 'none' as const) }),
                            remote: fc.nat(9).map((n) => n === 9),
                        })
                    )
                )
            ),
            steps: fc.array(
                fc.oneof(
                    { weight: 5, arbitrary: doc().map((d) => ({ do: 'open' as const, doc: d })) },
                    { weight: 9, arbitrary: fc.nat(5).map((n) => ({ do: 'go' as const, n })) },
                    { weight: 2, arbitrary: fc.constant({ do: 'rest' as const }) }
                ),
                { maxLength: 40, size: 'max' }
            ),
            dispose: fc.boolean(),
        }),
    run: async (c, ctx) => {
        const w = current.w;
        w.scheduled = true;
        w.settings['move.doveExecutablePath'] = DOVE;
        w.settings['move.languageServerPath'] = SERVER;
        w.folders = c.folders.map((f, i) => ({ ...folder(f.path, i), uri: Uri.from({ scheme: f.remote ? 'vscode-vfs' : 'file', path: f.path }) }));
        const spec = (path: string) => c.folders.find((f) => f.path === path)!;
        w.exists = (u) => c.folders.some((f) => f.manifest !== 'none' && u.path === f.path + '/Dove.toml');
        onlyDove(w, (cwd) =>
            spec(cwd)?.manifest === 'ok' ? { chunks: [[1, Buffer.from(JSON.stringify(metaFor(cwd, 1)))]], code: 0 } : { chunks: [[2, Buffer.from('Error: bad manifest of ' + cwd)]], code: 1 }
        );
        const started = new Map<any, any>();
        const factory = new ClientWorkspaceFactory(context('/storage'), new PersistentState(context('/storage').globalState));
        const wanted = new Set<string>();
        const failing = new Set<string>();
        for (const s of c.steps) {
            if (s.do === 'open') {
                ctx.nontrivial(w.pending.length > 0);
                ctx.class('a document while something is pending', w.pending.length > 0);
                const d: any = docOf(s.doc, w.folders);
                const f = d.uri.scheme === 'file' ? c.folders[w.folders.indexOf(workspace.getWorkspaceFolder(d.uri))] : undefined;
                if (f && !f.remote && (s.doc.kind === 'move' || s.doc.kind === 'manifest')) {
                    if (f.manifest === 'ok') wanted.add(f.path);
                    if (f.manifest === 'bad') failing.add(f.path);
                }
                factory.initClientWorkspace(d).catch((e) => w.uncaught.push(e.message));
            } else if (s.do === 'go') {
                await proceed(w, s.n);
            } else {
                await drain(w);
            }
            watch(w, started);
        }
        if (c.dispose) {
            ctx.nontrivial(w.pending.length > 0);
            ctx.class('disposed while something is pending', w.pending.length > 0);
            ctx.class('disposed with running clients', w.running().length > 0);
            ctx.class('disposed with three running clients', w.running().length > 2);
            void factory.dispose();
        }
        await drain(w);
        watch(w, started);
        const running = w.running().map((x) => folderOf(w, x).uri.path);
        if (c.dispose) {
            same('the servers that run after disposal', running, []);
            await tasks(w, []);
        } else {
            ctx.class('several servers', wanted.size > 1);
            same('the folders a server runs for', running.sort(), [...wanted].sort());
            await tasks(w, [...wanted]);
            for (const p of failing) if (!w.errors.some((e) => e.includes('bad manifest of ' + p))) fail(`nothing is shown for the bad manifest of ${p}`);
            same('the number of clients', w.clients.length, wanted.size);
        }
        for (const x of w.clients) {
            const p = folderOf(w, x).uri.path;
            same('the options of the server', sorted(x.clientOptions.initializationOptions), sorted(optionsFor(metaFor(p, 1))));
        }
    },
};


// ---------------------------------------------------------------- C36

type Manifest = 'none' | 'bad' | number;
type Event =
    | { e: 'manifest'; folder: number; to: Manifest }
    | { e: 'inner manifest'; folder: number; how: 'create' | 'delete' | 'save' }
    | { e: 'active'; doc: Doc | null }
    | { e: 'saved'; doc: Doc }
    | { e: 'settings'; server: number | null; dove: number | null }
    | { e: 'reload' };
interface Reload {
    folders: number;
    manifests: Manifest[];
    active: Doc | null;
    early: boolean;
    events: { event: Event; waits: number[] | null; before: number; after: number }[];
}

class Model {
    known = new Set<number>();
    running = new Map<number, { version: number; server: string }>();
    problems = 0;
    dove = DOVE;
    constructor(
        readonly manifests: Manifest[],
        public server: string
    ) {}
    open(d: Doc | null) {
        if (!d || d.kind === 'outside' || d.kind === 'diff' || d.kind === 'other') return;
        const i = d.folder % this.manifests.length;
        const m = this.manifests[i];
        if (m === 'none' || this.known.has(i)) return;
        this.known.add(i);
        if (m === 'bad') this.problems += 1;
        else this.running.set(i, { version: m, server: this.server });
    }
    reload(active: Doc | null) {
        this.known.clear();
        this.running.clear();
        this.open(active);
    }
}

export const reloading: Prop<Reload> = {
    id: 'C36',
    rule:
        'a case is one or two project folders and a history of edited, created, deleted, broken and mended manifests, changed settings, active documents and reload ' +
        'commands, each either after everything has come to rest or in the middle of what the ones before set off; non-trivial: at least one reload',
    assumptions: [
        'both executables are configured and work',
        'the running servers are compared with the model where every event came after the ones before had come to rest; otherwise after one more reload',
    ],
    runs: { quick: 12000, thorough: 200000 },
    arb: () => {
        const manifest = (): fc.Arbitrary<Manifest> => fc.oneof({ weight: 2, arbitrary: fc.constantFrom('none' as const, 'bad' as const) }, { weight: 3, arbitrary: fc.integer({ min: 1, max: 9 }) });
        const event = (): fc.Arbitrary<Event> =>
            fc.oneof(
                { weight: 5, arbitrary: fc.record({ e: fc.constant('manifest' as const), folder: fc.nat(1), to: manifest() }) },
                { weight: 1, arbitrary: fc.record({ e: fc.constant('inner manifest' as const), folder: fc.nat(1), how: fc.constantFrom('create' as const, 'delete' as const, 'save' as const) }) },
                { weight: 4, arbitrary: fc.record({ e: fc.constant('active' as const), doc: fc.option(doc(), { nil: null }) }) },
                { weight: 1, arbitrary: fc.record({ e: fc.constant('saved' as const), doc: doc() }) },
                { weight: 3, arbitrary: fc.record({ e: fc.constant('settings' as const), server: fc.option(fc.nat(3), { nil: null }), dove: fc.option(fc.nat(3), { nil: null, freq: 2 }) }) },
                { weight: 2, arbitrary: fc.record({ e: fc.constant('reload' as const) }) }
            );
        const history = (waits: fc.Arbitrary<number[] | null>) => fc.array(fc.record({ event: event(), waits, before: fc.nat(2), after: fc.nat(2) }), { maxLength: 12, size: 'max' });
        return fc.record({
            folders: fc.integer({ min: 1, max: 2 }),
            manifests: fc.array(manifest(), { minLength: 2, maxLength: 2 }),
            active: fc.option(doc(), { nil: null, freq: 5 }),
            early: fc.nat(3).map((n) => n === 3),
            events: fc.oneof(history(fc.constant(null)), history(fc.option(fc.array(fc.nat(5), { maxLength: 12 }), { nil: null, freq: 4 }))),
        });
    },
    run: async (c, ctx) => {
        const w = current.w;
        w.scheduled = true;
        const paths = ['/w/a', '/w/b'].slice(0, c.folders);
        const manifests: Manifest[] = c.manifests.slice(0, c.folders);
        w.settings['move.doveExecutablePath'] = DOVE;
        w.settings['move.languageServerPath'] = SERVER;
        w.folders = paths.map((p, i) => folder(p, i));
        w.exists = (u) => paths.some((p, i) => u.path === p + '/Dove.toml' && manifests[i] !== 'none');
        onlyDove(w, (cwd) => {
            const m = manifests[paths.indexOf(cwd)];
            return typeof m === 'number'
                ? { chunks: [[1, Buffer.from(JSON.stringify(metaFor(cwd, m)))]], code: 0 }
                : { chunks: [[2, Buffer.from(`Error: ${m} manifest in ${cwd}`)]], code: 1 };
        });
        const activate_ = (d: Doc | null) => (w.activeEditor = d ? { document: docOf(d, w.folders) } : undefined);
        const ctxt = context('/storage');
        activate_(c.active);
        let active = c.active;
        const model = new Model(manifests, SERVER);
        model.open(active);

        const seen = new Map<any, any>();
        const first = activate(ctxt);
        let sequential = !c.early;
        if (!c.early) {
            await drain(w);
            await finished('activation', first);
        } else {
            // the editor reports nothing before the extension listens
            await settle();
        }
        ctx.class('events during activation', c.early && c.events.length > 0);
        let listeners: number | undefined;
        const rested = () => {
            watch(w, seen);
            same('the registered commands', [...w.commands.keys()], ['move.reload']);
            listeners ??= w.listenerCount();
            same('the number of listeners', w.listenerCount(), listeners);
            // one for each server, and one that all might share
            if (w.channels.size > w.running().length + 1) fail(`${w.channels.size} output channels are open for ${w.running().length} running servers`);
        };
        const agree = async () => {
            rested();
            const got = w.running().map((x) => {
                const f = folderOf(w, x);
                return [f.uri.path, x.serverOptions.run.command, sorted(x.clientOptions.initializationOptions)];
            });
            const want = [...model.running].map(([i, r]) => [paths[i], r.server, sorted(optionsFor(metaFor(paths[i], r.version)))]);
            same('the running servers and their options', got.sort(), want.sort());
            await tasks(
                w,
                [...model.running.keys()].map((i) => paths[i]),
                model.dove
            );
        };
        if (!c.early) await agree();
        for (const { event, waits, before, after } of c.events) {
            const errors = w.errors.length;
            const infos = w.infos.length;
            const problems = model.problems;
            let problem = false;
            let reloads = 0;
            // several files can be created or deleted at once
            const among = (uri: Uri) => [...Array.from({ length: before }, (_, i) => Uri.file(`/w/a/${i}.move`)), uri, ...Array.from({ length: after }, (_, i) => Uri.file(`/elsewhere/${i}.toml`))];
            const changed = (i: number) => {
                if (typeof manifests[i] === 'number') {
                    model.reload(active);
                    reloads = 1;
                } else problem = true;
            };
            switch (event.e) {
                case 'manifest': {
                    const i = event.folder % paths.length;
                    const uri = Uri.file(paths[i] + '/Dove.toml');
                    const was = manifests[i];
                    if (was === 'none' && event.to === 'none') break;
                    manifests[i] = event.to;
                    if (was === 'none') w.fire('create', { files: among(uri) });
                    else if (event.to === 'none') w.fire('delete', { files: among(uri) });
                    else {
                        model.open({ folder: i, kind: 'manifest' });
                        w.fire('save', document(uri.path, 'toml'));
                    }
                    changed(i);
                    break;
                }
                case 'inner manifest': {
                    const i = event.folder % paths.length;
                    const uri = Uri.file(paths[i] + '/vendor/Dove.toml');
                    if (event.how === 'save') {
                        model.open({ folder: i, kind: 'manifest' });
                        w.fire('save', document(uri.path, 'toml'));
                    } else w.fire(event.how, { files: among(uri) });
                    changed(i);
                    break;
                }
                case 'active':
                    active = event.doc;
                    activate_(active);
                    model.open(active);
                    w.fire('activeEditor', w.activeEditor);
                    break;
                case 'saved': {
                    const d = docOf(event.doc, w.folders)!;
                    if (event.doc.kind === 'manifest') break;
                    w.fire('save', d);
                    break;
                }
                case 'settings':
                    if (event.server !== null) w.settings['move.languageServerPath'] = model.server = SERVER + event.server;
                    if (event.dove !== null) w.settings['move.doveExecutablePath'] = model.dove = DOVE + event.dove;
                    if (event.server !== null || event.dove !== null) {
                        model.reload(active);
                        reloads = 1;
                    }
                    ctx.class('another Dove', event.dove !== null);
                    const section = event.server !== null ? ['move', 'move.languageServerPath'] : event.dove !== null ? ['move', 'move.doveExecutablePath'] : ['editor'];
                    if (event.server !== null && event.dove !== null) section.push('move.doveExecutablePath');
                    w.fire('configuration', { affectsConfiguration: (s: string) => section.includes(s) });
                    break;
                case 'reload': {
                    const f = w.commands.get('move.reload');
                    if (f) void f();
                    model.reload(active);
                    reloads = 1;
                    break;
                }
            }
            ctx.nontrivial(reloads > 0);
            ctx.class('event: ' + event.e);
            if (waits === null) {
                await drain(w);
                watch(w, seen);
                if (sequential) {
                    await agree();
                    ctx.class('servers agree after a reload', reloads > 0 && model.running.size > 0);
                    if ((problem || model.problems > problems) && w.errors.length === errors) fail('nothing is shown for a bad manifest');
                    if (!problem && model.problems === problems && w.errors.length > errors) fail(`shown without a reason: ${w.errors[errors]}`);
                    if (reloads > 0 && w.infos.length === infos) fail('a reload is not announced');
                    if (reloads === 0 && w.infos.length > infos) fail('reloaded without a reason');
                }
            } else {
                sequential = false;
                ctx.class('events in the middle of others');
                for (const n of waits) {
                    await proceed(w, n);
                    watch(w, seen);
                }
            }
        }
        await drain(w);
        rested();
        if (!sequential) {
            // whatever came in between, nothing that was changed is forgotten
            for (const x of w.running()) {
                const f = folderOf(w, x);
                const m = manifests[w.folders.indexOf(f)];
                same('the program of a running server', x.serverOptions.run.command, model.server);
                if (typeof m === 'number') same('the options of a running server', sorted(x.clientOptions.initializationOptions), sorted(optionsFor(metaFor(f.uri.path, m))));
            }
            if (active && (active.kind === 'move' || active.kind === 'manifest') && typeof manifests[active.folder % paths.length] === 'number') {
                const f = w.folders[active.folder % paths.length];
                ctx.class('a server for the active document after interleaved events');
                if (!w.running().some((x) => folderOf(w, x) === f)) fail('no server runs for the project of the active document');
            }
            model.reload(active);
            void w.commands.get('move.reload')!();
            await drain(w);
            await agree();
        }
    },
};
