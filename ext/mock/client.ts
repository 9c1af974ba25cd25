// Stands in for vscode-languageclient: records what is started and stopped.
import { current } from './world';
import { Disposable } from './vscode';

export const TransportKind = { stdio: 0, ipc: 1, pipe: 2, socket: 3 };
export class LanguageClient {
    started = 0;
    stopped = false;
    startedAt: any = undefined;
    constructor(
        readonly id: string,
        readonly name: string,
        readonly serverOptions: any,
        readonly clientOptions: any
    ) {
        current.w.clients.push(this);
    }
    private world = current.w;
    start() {
        this.started += 1;
        this.world.onClient('start', this);
        return new Disposable(() => {
            void this.stop();
        });
    }
    stop(): Promise<void> {
        if (!this.stopped) this.world.onClient('stop', this);
        this.stopped = true;
        return this.world.later('client stopped', () => undefined);
    }
    onReady() {
        return Promise.resolve();
    }
    needsStop() {
        return this.started > 0 && !this.stopped;
    }
    dispose() {
        return this.stop();
    }
}
