// The editor side of a case: extension context, documents, project metadata.
import * as fc from 'fast-check';
import { Uri } from './mock/vscode';
import { current } from './mock/world';

export function context(storage: string) {
    const w = current.w;
    return {
        globalStorageUri: Uri.file(storage),
        extensionUri: Uri.file('/extension'),
        extensionPath: '/extension',
        subscriptions: [] as { dispose(): any }[],
        globalState: {
            get: (k: string, d?: unknown) => (w.globalState.has(k) ? w.globalState.get(k) : d),
            update: async (k: string, v: unknown) => {
                if (v === undefined) w.globalState.delete(k);
                else w.globalState.set(k, v);
            },
            keys: () => [...w.globalState.keys()],
        },
    } as any;
}

export function folder(path: string, index: number) {
    return { uri: Uri.file(path), name: path.split('/').pop(), index };
}

export function document(path: string, languageId: string, scheme = 'file') {
    return { uri: Uri.from({ scheme, path }), fileName: path, languageId, version: 1, isDirty: false };
}

const text = () => fc.string({ unit: 'grapheme', maxLength: 12 });
const directory = () =>
    fc.array(fc.oneof(fc.constantFrom('home', 'work', 'модули', '模块', 'a b', 'x'), text().map((s) => s.replace(/[/\0]/g, '_'))), { minLength: 1, maxLength: 4 }).map((p) => '/' + p.join('/'));

export function metadataOf(dialects = ['diem', 'dfinance', 'pont']) {
    const maybe = () => fc.option(text(), { nil: null });
    return fc.record({
        package: fc.record({
            name: text(),
            account_address: fc.oneof(fc.constantFrom('0x1', '0x42', 'wallet1me0cdn52672y7feddy7tgcj6j4dkzq2su745vh', '5CdCiQzNRZXWx7wNVCVjPMzGBFpkYHe3WKrGzd6TG97vKbnv'), text()),
            authors: fc.array(text(), { maxLength: 3 }),
            blockchain_api: maybe(),
            local_dependencies: fc.array(directory(), { maxLength: 4 }),
            git_dependencies: fc.array(
                fc.record({ git: text(), branch: maybe(), rev: maybe(), tag: maybe(), path: maybe(), local_paths: fc.array(directory(), { maxLength: 3 }) }),
                { maxLength: 3 }
            ),
            dialect: fc.constantFrom(...dialects),
        }),
        layout: fc.record({
            modules_dir: directory(),
            scripts_dir: directory(),
            tests_dir: directory(),
            modules_output: directory(),
            scripts_output: directory(),
            transactions_output: directory(),
            deps: directory(),
            artifacts: directory(),
            index: directory(),
        }),
    });
}

/** The options the server is to be started with, from what Dove reports. */
export function optionsFor(m: any) {
    return {
        dialect: m.package.dialect,
        modules_folders: [...m.package.local_dependencies, ...m.package.git_dependencies.flatMap((g: any) => g.local_paths), m.layout.modules_dir],
        sender_address: m.package.account_address,
        stdlib_folder: null,
    };
}

export function sorted(v: any): any {
    if (Array.isArray(v)) return v.map(sorted);
    if (v && typeof v === 'object') return Object.fromEntries(Object.keys(v).sort().map((k) => [k, sorted(v[k])]));
    return v;
}

export function cut(bytes: Buffer, cuts: number[], every: boolean): Buffer[] {
    if (every) return [...bytes].map((b) => Buffer.from([b]));
    const at = [...new Set(cuts.map((c) => c % (bytes.length + 1)))].sort((a, b) => a - b);
    const parts: Buffer[] = [];
    let from = 0;
    for (const to of [...at, bytes.length]) {
        if (to > from) parts.push(bytes.subarray(from, to));
        from = Math.max(from, to);
    }
    return parts;
}
