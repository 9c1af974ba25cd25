import * as posix from 'path';
import { current } from './world';

export class Uri {
    private constructor(
        readonly scheme: string,
        readonly authority: string,
        readonly path: string,
        readonly query = '',
        readonly fragment = ''
    ) {}
    static file(path: string): Uri {
        return new Uri('file', '', path.startsWith('/') ? path : '/' + path);
    }
    static from(p: any): Uri {
        return new Uri(p.scheme, p.authority ?? '', p.path ?? '');
    }
    static parse(s: string): Uri {
        const m = /^([a-z][a-z0-9+.-]*):(?:\/\/([^/]*))?(.*)$/i.exec(s);
        if (!m) return Uri.file(s);
        return new Uri(m[1], m[2] ?? '', decodeURIComponent(m[3]));
    }
    static joinPath(base: Uri, ...parts: string[]): Uri {
        return new Uri(base.scheme, base.authority, posix.posix.join(base.path, ...parts));
    }
    with(c: any): Uri {
        return new Uri(c.scheme ?? this.scheme, c.authority ?? this.authority, c.path ?? this.path);
    }
    get fsPath(): string {
        return this.path;
    }
    toString(): string {
        return `${this.scheme}://${this.authority}${encodeURI(this.path)}`;
    }
    toJSON() {
        return { scheme: this.scheme, path: this.path };
    }
}

export class Disposable {
    constructor(private readonly f: () => any) {}
    static from(...d: { dispose(): any }[]) {
        return new Disposable(() => d.forEach((x) => x.dispose()));
    }
    dispose() {
        return this.f();
    }
}

export class EventEmitter<T> {
    private readonly ls = new Set<(e: T) => any>();
    event = (l: (e: T) => any) => {
        this.ls.add(l);
        return new Disposable(() => this.ls.delete(l));
    };
    fire(e: T) {
        for (const l of [...this.ls]) l(e);
    }
    dispose() {
        this.ls.clear();
    }
}

function event(name: string) {
    return (listener: (e: any) => any, thisArg?: any, disposables?: any[]) => {
        const w = current.w;
        const l = thisArg ? listener.bind(thisArg) : (e: any) => listener(e);
        (w.listeners[name] ??= new Set()).add(l);
        const d = new Disposable(() => w.listeners[name].delete(l));
        disposables?.push(d);
        return d;
    };
}

function splitItems(args: any[]): any[] {
    // an options object may come before the items
    const items = args.filter((a) => a !== undefined);
    if (items.length && typeof items[0] === 'object' && !('title' in items[0])) items.shift();
    return items;
}

export const window = {
    get activeTextEditor() {
        return current.w.activeEditor;
    },
    get visibleTextEditors() {
        return current.w.activeEditor ? [current.w.activeEditor] : [];
    },
    createOutputChannel(name: string) {
        // one that is made while the module is loaded belongs to no case
        const mine = current.loaded ? current.w : undefined;
        const entry = { name };
        mine?.channels.add(entry);
        let line = '';
        return {
            name,
            append(text: string) {
                line += text;
                if (!line.endsWith('\n')) return;
                current.w.log.push(line.slice(0, -1));
                line = '';
            },
            appendLine(text: string) {
                current.w.log.push(line + text);
                line = '';
            },
            clear() {},
            show() {
                current.w.logShown += 1;
            },
            hide() {},
            dispose() {
                mine?.channels.delete(entry);
            },
        };
    },
    showErrorMessage(message: string, ...items: any[]) {
        const w = current.w;
        w.errors.push(message);
        w.questions.push({ message, items });
        return w.later('answer to a dialog', () => w.choose(message, splitItems(items)));
    },
    showWarningMessage(message: string, ...items: any[]) {
        const w = current.w;
        w.questions.push({ message, items });
        return w.later('answer to a dialog', () => w.choose(message, splitItems(items)));
    },
    showInformationMessage(message: string) {
        const w = current.w;
        w.infos.push(message);
        return w.later('answer to a message', () => undefined);
    },
    showInputBox(options: any) {
        const w = current.w;
        w.boxes.push(options);
        return w.later('input box', () => w.input(options));
    },
    withProgress(options: any, task: (p: any, t: any) => Promise<any>) {
        const p = { title: options.title, reports: [] as any[] };
        current.w.progress.push(p);
        const token = { isCancellationRequested: false, onCancellationRequested: () => new Disposable(() => {}) };
        return Promise.resolve(task({ report: (r: any) => p.reports.push(r) }, token));
    },
    setStatusBarMessage: () => new Disposable(() => {}),
    onDidChangeActiveTextEditor: event('activeEditor'),
    onDidChangeVisibleTextEditors: event('visibleEditors'),
};

export const workspace = {
    get workspaceFolders() {
        return current.w.folders.length ? current.w.folders : undefined;
    },
    get textDocuments() {
        return current.w.activeEditor ? [current.w.activeEditor.document] : [];
    },
    getConfiguration(section?: string) {
        const key = (k: string) => (section ? section + '.' + k : k);
        const w = current.w;
        return {
            get: (k: string, d?: any) => (key(k) in w.settings ? w.settings[key(k)] : d),
            has: (k: string) => key(k) in w.settings,
            inspect: () => undefined,
            update: async () => {},
        };
    },
    getWorkspaceFolder(uri: Uri) {
        // the innermost folder that holds the file
        let best: any = undefined;
        for (const f of current.w.folders) {
            const p: string = f.uri.path;
            if (uri.scheme !== f.uri.scheme) continue;
            if (uri.path !== p && !uri.path.startsWith(p + '/')) continue;
            if (!best || p.length > best.uri.path.length) best = f;
        }
        return best;
    },
    asRelativePath: (p: any) => String(p),
    onDidSaveTextDocument: event('save'),
    onDidOpenTextDocument: event('open'),
    onDidCloseTextDocument: event('close'),
    onDidChangeTextDocument: event('change'),
    onDidChangeConfiguration: event('configuration'),
    onDidCreateFiles: event('create'),
    onDidDeleteFiles: event('delete'),
    onDidRenameFiles: event('rename'),
    onDidChangeWorkspaceFolders: event('folders'),
    fs: {
        createDirectory(uri: Uri) {
            const w = current.w;
            return w.later('createDirectory', () => {
                w.directories.push(uri.path);
                w.makeDirectory(uri.path);
            });
        },
        stat(uri: Uri) {
            const w = current.w;
            return w.later('stat ' + uri.path, () => {
                if (!w.exists(uri)) throw new Error('FileNotFound: ' + uri.path);
                return { type: 1, ctime: 0, mtime: 0, size: 0 };
            });
        },
    },
};

export const commands = {
    registerCommand(name: string, f: (...a: any[]) => any) {
        const w = current.w;
        if (w.commands.has(name)) throw new Error(`command '${name}' already exists`);
        w.commands.set(name, f);
        return new Disposable(() => {
            if (w.commands.get(name) === f) w.commands.delete(name);
        });
    },
    async executeCommand(name: string, ...args: any[]) {
        const w = current.w;
        const f = w.commands.get(name);
        if (!f) {
            w.commandErrors.push(name);
            return undefined; // the editor's rejection, which nobody awaits
        }
        return f(...args);
    },
};

export const tasks = {
    registerTaskProvider(type: string, provider: any) {
        const entry = { type, provider };
        const w = current.w;
        w.taskProviders.add(entry);
        return new Disposable(() => w.taskProviders.delete(entry));
    },
};

export const ProgressLocation = { SourceControl: 1, Window: 10, Notification: 15 };
export const TaskGroup = { Build: 'build', Test: 'test', Clean: 'clean', Rebuild: 'rebuild' };
export const TaskScope = { Global: 1, Workspace: 2 };
export class ShellExecution {
    constructor(
        readonly command: any,
        readonly args: any,
        readonly options?: any
    ) {}
}
export class ProcessExecution extends ShellExecution {}
export class Task {
    group: any;
    constructor(
        readonly definition: any,
        readonly scope: any,
        readonly name: string,
        readonly source: string,
        readonly execution: any
    ) {}
}
export class RelativePattern {
    constructor(
        readonly base: any,
        readonly pattern: string
    ) {}
}
