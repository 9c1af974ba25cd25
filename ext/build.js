// Bundles the checks with the extension's sources and stand-ins for the editor, the language client,
// the network and child processes. Usage: build.js SRC OUT
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const path = require('path');
const [src, out] = process.argv.slice(2);
const fs = require('fs');
// The grammar that the extension contributes for its language.
const manifest = JSON.parse(fs.readFileSync(path.join(src, '..', 'package.json'), 'utf8'));
const contributed = manifest.contributes.grammars.find((g) => g.language === 'move');
const mock = (f) => path.join(__dirname, 'mock', f);
esbuild.buildSync({
    entryPoints: [path.join(__dirname, 'main.ts')],
    bundle: true,
    platform: 'node',
    target: 'node18',
    outfile: out,
    tsconfigRaw: '{}',
    alias: {
        '@extension': src,
        '@grammar': path.join(src, '..', contributed.path),
        vscode: mock('vscode.ts'),
        'vscode-languageclient/node': mock('client.ts'),
        'vscode-languageclient': mock('client.ts'),
        'node-fetch': mock('fetch.ts'),
        child_process: mock('child_process.ts'),
        'node:child_process': mock('child_process.ts'),
    },
    nodePaths: ['/opt/veriftools/node/node_modules'],
    define: { CONTRIBUTED_SCOPE: JSON.stringify(contributed.scopeName) },
    logLevel: 'error',
});
