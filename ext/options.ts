// Language servers are started with what Dove reports for the project, however its output arrives.
import * as fc from 'fast-check';
import * as fs from 'fs';
import * as path from 'path';
import { activate } from '@extension/extension';
import { Prop, fail, finished, same, settle } from './engine';
import { current } from './mock/world';
import { context, cut, document, folder, metadataOf, optionsFor, sorted } from './host';

interface Case {
    meta: any;
    indent: number;
    pad: [string, string];
    cuts: number[];
    every: boolean;
    stderr: string;
    errCuts: number[];
    order: number[];
    outcome: 'ok' | 'fails' | 'no program' | 'no folder';
    real: boolean;
    name: string;
}

function script(chunks: [1 | 2, Buffer][], code: number): string {
    const octal = (b: Buffer) => [...b].map((x) => '\\' + x.toString(8).padStart(3, '0')).join('');
    const lines = chunks.map(([fd, b]) => `printf '${octal(b)}'${fd === 2 ? ' >&2' : ''}`);
    return `#!/bin/sh\nif [ "$1" = --version ]; then echo dove; exit 0; fi\n${lines.join('\nsleep 0.004\n')}\nexit ${code}\n`;
}

let counter = 0;

export const options: Prop<Case> = {
    id: 'C32',
    rule:
        'a case is the metadata of a project (any texts in it), the places where the output of `dove metadata` is cut into pieces, what is written to ' +
        'standard error in between, and whether the program succeeds, fails, is missing or its folder is missing; most run with a stand-in for child ' +
        'processes, some with a real script; non-trivial: the output arrives in several pieces, or the program does not succeed',
    assumptions: ['Dove writes its metadata as JSON in UTF-8 and nothing to standard output when it fails', 'the editor, the language client and most child processes are stand-ins'],
    runs: { quick: 4000, thorough: 100000 },
    arb: () =>
        fc.record({
            meta: metadataOf(),
            indent: fc.constantFrom(0, 2),
            pad: fc.tuple(fc.constantFrom('', '\n', ' '), fc.constantFrom('', '\n', '\r\n', ' \n')),
            cuts: fc.array(fc.nat(4000), { maxLength: 8 }),
            every: fc.boolean().map((b) => b),
            stderr: fc.oneof(fc.constant(''), fc.string({ unit: 'grapheme', minLength: 1, maxLength: 30 }), fc.constantFrom('предупреждение: нет', 'Error: expected `=` ✗\n')),
            errCuts: fc.array(fc.nat(60), { maxLength: 4 }),
            order: fc.array(fc.nat(1), { maxLength: 20 }),
            outcome: fc.oneof({ weight: 6, arbitrary: fc.constant('ok' as const) }, { weight: 2, arbitrary: fc.constant('fails' as const) }, fc.constant('no program' as const), fc.constant('no folder' as const)),
            real: fc.nat(11).map((n) => n === 11),
            name: fc.constantFrom('p', 'my project', 'проект', 'a+b'),
        }) as fc.Arbitrary<Case>,
    fixed: [],
    run: async (c, ctx) => {
        const w = current.w;
        const outcome = c.real && c.outcome === 'no program' ? 'fails' : c.outcome;
        const json = c.pad[0] + JSON.stringify(c.meta, null, c.indent || undefined) + c.pad[1];
        const out = outcome === 'ok' ? cut(Buffer.from(json), c.cuts, c.every && !c.real) : [];
        const err = cut(Buffer.from(c.stderr), c.errCuts, c.every && !c.real);
        const chunks: [1 | 2, Buffer][] = [];
        for (const pick of [...c.order, ...out.map(() => 0), ...err.map(() => 1)]) {
            const next = pick === 0 ? out.shift() : err.shift();
            if (next) chunks.push([pick === 0 ? 1 : 2, next]);
        }
        const code = outcome === 'ok' ? 0 : 1;
        ctx.nontrivial(chunks.length > 1 || outcome !== 'ok');
        const nonAscii = /[^\0-\x7f]/.test(json);
        ctx.class('split inside a character', chunks.some(([fd, b]) => fd === 1 && (b[0] & 0xc0) === 0x80));
        ctx.class('text outside ASCII', nonAscii);
        ctx.class('outcome: ' + outcome);
        ctx.class('real process', c.real);

        const base = path.join(ctx.scratch, String(counter++));
        fs.mkdirSync(base);
        try {
            const project = path.join(base, c.name);
            const dove = path.join(base, 'dove');
            w.realPrograms = c.real;
            if (c.real) {
                if (outcome !== 'no folder') fs.mkdirSync(project);
                fs.writeFileSync(dove, script(chunks, code), { mode: 0o755 });
            }
            w.program = () => (outcome === 'no program' || outcome === 'no folder' ? { error: 'ENOENT' } : { chunks, code });
            w.settings['move.doveExecutablePath'] = dove;
            w.settings['move.languageServerPath'] = '/opt/move ls';
            w.settings['move.trace.extension'] = c.every;
            w.folders = [folder(project, 0)];
            w.exists = (u) => u.path === project + '/Dove.toml';
            w.activeEditor = { document: document(project + '/modules/a.move', 'move') };
            await finished('activation', activate(context(path.join(base, 'storage'))));
            await settle();

            for (const s of w.spawned) {
                same('the arguments of dove', s.args, ['metadata']);
                same('the program that is run', s.command, dove);
                same('the folder dove runs in', s.cwd, project);
            }
            if (w.spawned.length === 0) fail('dove was not asked for the metadata');
            if (outcome === 'ok') {
                same('the number of language clients', w.running().length, 1);
                const client = w.running()[0];
                same('the options the server gets', sorted(client.clientOptions.initializationOptions), sorted(optionsFor(c.meta)));
                same('errors shown', w.errors, []);
            } else {
                same('the number of language clients without metadata', w.clients.length, 0);
                if (w.errors.length === 0) fail('nothing is shown to the user');
                if (outcome === 'fails' && !w.errors.some((e) => e.includes(c.stderr)))
                    fail(`what dove wrote to standard error is not shown: ${JSON.stringify(w.errors)} instead of ${JSON.stringify(c.stderr)}`);
            }
        } finally {
            fs.rmSync(base, { recursive: true, force: true });
        }
    },
};
