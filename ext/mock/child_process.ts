// Programs whose output arrives exactly as the case says; or real ones.
import { EventEmitter } from 'events';
import { PassThrough } from 'stream';
import { current } from './world';
const real: any = (process as any).getBuiltinModule('child_process');

function missing(command: string, code: string, call: string) {
    const e: any = new Error(`${call} ${command} ${code}`);
    return Object.assign(e, { code, errno: -2, syscall: call, path: command });
}

export function spawn(command: string, args: any = [], options: any = {}): any {
    const w = current.w;
    if (typeof command !== 'string') throw Object.assign(new TypeError(`The "file" argument must be of type string. Received ${command}`), { code: 'ERR_INVALID_ARG_TYPE' });
    if (!Array.isArray(args)) [args, options] = [[], args];
    w.spawned.push({ command, args: [...args], cwd: options?.cwd });
    if (w.realPrograms) return real.spawn(command, args, options);
    const child: any = new EventEmitter();
    child.stdin = new PassThrough();
    child.stdout = new PassThrough();
    child.stderr = new PassThrough();
    child.kill = () => true;
    const program = w.program(command, args, options?.cwd);
    if ('error' in program) {
        void w.later('program not started', () => {
            const e = missing(command, program.error, 'spawn ' + command);
            const ended = [child.stdout, child.stderr].map((s) => new Promise((r) => s.on('close', r)));
            child.stdout.destroy();
            child.stderr.destroy();
            try {
                child.emit('error', e);
            } catch (thrown: any) {
                w.uncaught.push(thrown.message);
            }
            void Promise.all(ended).then(() => child.emit('close', -2, null));
        });
        return child;
    }
    void (async () => {
        for (const [fd, bytes] of program.chunks) {
            await w.later('output of ' + args.join(' '), () => (fd === 1 ? child.stdout : child.stderr).write(bytes));
            await new Promise((r) => setImmediate(r));
        }
        await w.later('end of ' + args.join(' '), () => undefined);
        child.emit('exit', program.code, null);
        const ended = [child.stdout, child.stderr].map(
            (s) => new Promise((r) => {
                s.on('end', r);
                s.end();
                if (!s.listenerCount('data') && !s.listenerCount('readable')) s.resume();
            })
        );
        await Promise.all(ended);
        child.emit('close', program.code, null);
    })();
    return child;
}

export function spawnSync(command: string, args: any = [], options: any = {}): any {
    const w = current.w;
    if (w.realPrograms) return real.spawnSync(command, args, options);
    return w.versionOk(command)
        ? { status: 0, stdout: 'dove 1.2.2', stderr: '', signal: null, pid: 1, output: [] }
        : { status: null, stdout: null, stderr: null, error: missing(command, 'ENOENT', 'spawnSync') };
}

export function execFile(command: string, args: any, options: any, done?: any): any {
    if (typeof options === 'function') [options, done] = [{}, options];
    const child = spawn(command, args, options);
    const out: Buffer[] = [];
    const err: Buffer[] = [];
    let failed: any = null;
    child.stdout.on('data', (d: any) => out.push(Buffer.from(d)));
    child.stderr.on('data', (d: any) => err.push(Buffer.from(d)));
    child.on('error', (e: any) => (failed = e));
    child.on('close', (code: number) => {
        if (!failed && code) failed = Object.assign(new Error('Command failed'), { code });
        done?.(failed, Buffer.concat(out).toString(), Buffer.concat(err).toString());
    });
    return child;
}
(execFile as any)[Symbol.for('nodejs.util.promisify.custom')] = (c: string, a: any, o: any) =>
    new Promise((resolve, reject) =>
        execFile(c, a, o, (e: any, stdout: string, stderr: string) => (e ? reject(Object.assign(e, { stdout, stderr })) : resolve({ stdout, stderr })))
    );
export function execFileSync(command: string, args: any = [], options: any = {}): any {
    if (current.w.realPrograms) return real.execFileSync(command, args, options);
    const res = spawnSync(command, args, options);
    if (res.error) throw Object.assign(res.error, res);
    return res.stdout;
}
export const exec = real.exec;
export const execSync = real.execSync;
export const fork = real.fork;
export default { spawn, spawnSync, execFile, execFileSync, exec, execSync, fork };
