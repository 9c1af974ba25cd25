// The editor, file system, network and programs as one case sees them.
import type { Uri } from './vscode';

export interface Pending {
    what: string;
    go: () => void;
}

export type Program = { chunks: [1 | 2, Buffer][]; code: number } | { error: string };

export class World {
    settings: Record<string, unknown> = {};
    folders: any[] = [];
    activeEditor: any = undefined;
    listeners: Record<string, Set<(e: any) => any>> = {};
    commands = new Map<string, (...a: any[]) => any>();
    commandErrors: string[] = [];
    taskProviders = new Set<{ type: string; provider: any }>();
    clients: any[] = [];
    errors: string[] = [];
    infos: string[] = [];
    progress: { title: string; reports: any[] }[] = [];
    directories: string[] = [];
    uncaught: string[] = [];
    trace: string[] = [];
    spawned: { command: string; args: string[]; cwd: any }[] = [];
    fetched: { url: string; headers: Record<string, string> }[] = [];
    globalState = new Map<string, unknown>();
    // the log of the extension: the channel that is made when it is loaded
    log: string[] = [];
    logShown = 0;
    // the other output channels that are open
    channels = new Set<{ name: string }>();
    questions: { message: string; items: any[] }[] = [];
    boxes: any[] = [];

    // behaviour, set by the case
    exists: (uri: Uri) => boolean = () => false;
    program: (command: string, args: string[], cwd: any) => Program = () => ({ error: 'ENOENT' });
    makeDirectory: (path: string) => void = () => {};
    versionOk: (path: string) => boolean = () => true;
    realPrograms = false;
    fetch: (url: string, headers: Record<string, string>) => any = () => {
        throw new Error('no network');
    };
    // answers to dialogs: the index of the chosen item, or -1
    choose: (message: string, items: any[]) => any = () => undefined;
    input: (options: any) => string | undefined = () => undefined;
    onClient: (event: 'start' | 'stop', client: any) => void = () => {};

    // With a schedule, completions wait until the case lets them happen; otherwise they happen by themselves.
    scheduled = false;
    pending: Pending[] = [];

    later<T>(what: string, value: () => T): Promise<T> {
        return new Promise((resolve, reject) => {
            const go = () => {
                try {
                    resolve(value());
                } catch (e) {
                    reject(e);
                }
            };
            if (this.scheduled) this.pending.push({ what, go });
            else setImmediate(go);
        });
    }
    fire(event: string, value: any): Promise<any>[] {
        const results: Promise<any>[] = [];
        for (const l of [...(this.listeners[event] ?? [])]) {
            try {
                results.push(Promise.resolve(l(value)).catch((e) => this.trace.push(`listener of ${event}: ${e?.message}`)));
            } catch (e: any) {
                this.trace.push(`listener of ${event}: ${e?.message}`);
            }
        }
        return results;
    }
    listenerCount(): number {
        return Object.values(this.listeners).reduce((n, s) => n + s.size, 0);
    }
    running(): any[] {
        return this.clients.filter((c) => c.started && !c.stopped);
    }
}

export const current: { w: World; loaded: boolean } = { w: new World(), loaded: false };
