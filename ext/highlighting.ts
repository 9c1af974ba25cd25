// Highlighting: generated programs are read with the grammar that the extension contributes.
import * as fc from 'fast-check';
import grammarJson from '@grammar';
import { Prop, fail } from './engine';
import { Grammar } from './textmate';

declare const CONTRIBUTED_SCOPE: string;

interface Case {
    program: number[];
    gaps: number[];
}

interface Tok {
    text: string;
    /** What the last scope has to be, and for which part of the text. */
    want?: RegExp;
    part: [number, number];
}

const item = /^storage\.modifier/;
const control = /^keyword\.control/;
const has = /^keyword\./;
const primitive = /^support\.type\./;
const number = /^constant\.numeric/;
const bool = /^constant\.language\.boolean/;
const string = /^string\.quoted/;
const bytes = /^constant\./;
const functionName = /^entity\.name\.function\.move/;
const typeName = /^entity\.name\.type/;
const call = /^entity\.name\.function\.call/;
const moveCopy = /^variable\.language/;
const mut = /^storage\.modifier\.mut/;
const builtin = /^support\.function/;
const ability = /^entity\.name\.type\.(kind|ability)/;
const address = /^support\.constant/;
const constant = /^constant\.other/;
const moduleName = /^entity\.name\.type\.module/;
/** A name is nothing else. */
const plain = /^(?!keyword|storage|string|comment|support|constant\.(?!other)|variable\.language)/;

const NAMES = [
    'x', 'a1', 'Foo', 'foo_bar', 'T', 'value', 'modules', 'letter', 'S2', 'has_it', 'fun1', '_y', 'if_x', 'u640', 'addresses',
    'module1', 'structure', 'address_of', 'use1', 'constant', 'native1', 'public_1', 'friends', 'scripts', 'vector1', 'true_',
    'falsey', 'mutx', 'copyx', 'movement', 'exists1', 'asserted', 'returned', 'abort_', 'a0x1', 'e10', 'x0', 'b1', 'h2', 'xs',
    'as_is', 'acquires1', 'breaker', 'loop1', 'elsewhere', 'Self1', 'refun', 'my_struct', 'sub_module', 'un_native', 'x_as', 'is_true',
    'spec1', 'define1', 'drop_it', 'keys', 'u8_', 'fun_u8',
];
const PRIMITIVES = ['u8', 'u64', 'u128', 'bool', 'address', 'signer'];
const ABILITIES = ['copy', 'drop', 'store', 'key'];
const NUMBERS = ['1', '42', '7u8', '100u64', '1u128', '0', '1000000', '1_000', '0x1', '0xFF', '0x10u8', '0xdeadBEEF'];
const STRINGS = ['b"abc"', 'b""', 'b"// no"', 'b"/* x"', 'b"*/"', 'b"a\\"b"', 'b"\\\\"', 'b"}"', 'b"{ let fun"', 'b"x\\\\\\" }"', 'b"(a, b);"', "b\"it's\""];
const BYTES = ['x"0aF1"', 'x"00"', 'x"deadBEEF"'];
const OPERATORS = ['+', '-', '*', '/', '%', '==', '!=', '<', '>', '<=', '>=', '&&', '||', '|', '^'];
const COMMENTS = [
    '/* c */', '// let x\n', '/// doc { \n', '/** d } */', '/* module */', '/* a\n b */', '/**/', '/* " */', '//\n', '/***/', '/* // */',
    '// /* \n', '/*! x */', '// é😀 "\n', '/* é\n\n( */', '/* ; */', '/** */', '// */\n', '/* **/', '/*/ */', '//! y)\n', '/*\n*/', '//// >\n', '/* b"x */',
];

class Choices {
    private i = 0;
    constructor(private xs: number[]) {}
    below(n: number): number {
        return (this.xs[this.i++] ?? 0) % n;
    }
    pick<T>(xs: readonly T[]): T {
        return xs[this.below(xs.length)];
    }
    chance(n: number): boolean {
        return this.below(n) === n - 1;
    }
    times(max: number): number {
        let n = 0;
        while (n < max && this.i < this.xs.length && this.below(3) > 0) n++;
        return n;
    }
}

/** Writes a program. What may be asked of a token depends on where it is. */
class Writer {
    readonly out: Tok[] = [];
    /** Positions in `out` where an item of a file ends. */
    readonly ends: number[] = [];
    private depth = 0;
    constructor(private c: Choices) {}
    private t(text: string, want?: RegExp, part: [number, number] = [0, text.length]) {
        this.out.push({ text, want, part });
    }
    private name(want: RegExp = plain) {
        this.t(this.c.pick(NAMES), want);
    }
    private list(n: number, one: () => void) {
        for (let i = 0; i < n; i++) {
            if (i) this.t(',');
            one();
        }
    }
    file() {
        const n = 1 + this.c.times(3);
        for (let i = 0; i < n; i++) {
            const k = this.c.below(3);
            if (k === 0) this.module(true);
            else if (k === 1) this.script();
            else this.addressBlock();
            this.ends.push(this.out.length);
        }
    }
    private addressBlock() {
        this.t('address', item);
        this.c.chance(2) ? this.t(this.c.pick(['0x1', '0xABCDEF']), address) : this.t('Std');
        this.t('{');
        const n = this.c.times(3);
        for (let i = 0; i < n; i++) this.module(false);
        this.t('}');
    }
    private script() {
        this.t('script', item);
        this.t('{');
        for (let n = this.c.times(2); n > 0; n--) this.use();
        for (let n = this.c.times(2); n > 0; n--) this.constant();
        this.fun(false);
        this.t('}');
    }
    private module(qualified: boolean) {
        this.t('module', item);
        if (qualified) {
            this.t(this.c.pick(['0x1', 'Std']));
            this.t('::');
        }
        this.name(typeName);
        this.t('{');
        for (let n = this.c.times(5); n > 0; n--) this.c.pick([() => this.fun(true), () => this.struct(), () => this.use(), () => this.constant(), () => this.friend(), () => this.native(), () => this.spec()])();
        this.t('}');
    }
    private friend() {
        this.t('friend', item);
        this.t('0x2', address);
        this.t('::');
        this.name(moduleName);
        this.t(';');
    }
    private use() {
        this.t('use', item);
        this.t('0x1', address);
        this.t('::');
        this.name(moduleName);
        const k = this.c.below(3);
        if (k === 1) {
            this.t('as');
            this.name(moduleName);
        }
        if (k === 2) {
            this.t('::');
            this.t('{');
            this.list(1 + this.c.times(2), () => {
                this.name(typeName);
                if (this.c.chance(3)) {
                    this.t('as');
                    this.name(typeName);
                }
            });
            this.t('}');
        }
        this.t(';');
    }
    private constant() {
        this.t('const', item);
        this.name(constant);
        this.t(':');
        this.t(this.c.pick(PRIMITIVES), primitive);
        this.t('=');
        this.literal();
        this.t(';');
    }
    private literal() {
        const k = this.c.below(4);
        if (k === 0) this.t(this.c.pick(NUMBERS), number);
        else if (k === 1) this.t(this.c.pick(['true', 'false']), bool);
        else if (k === 2) {
            const s = this.c.pick(STRINGS);
            this.t(s, string, [1, s.length]);
        } else {
            const s = this.c.pick(BYTES);
            this.t(s, bytes, [2, s.length - 1]);
        }
    }
    private vector(inside: () => void) {
        this.t('vector<', primitive, [0, 6]);
        inside();
        this.t('>');
    }
    /** The arguments of a type that is not a vector are not asked about. */
    private type(ask = true, d = 0): void {
        const q = (r: RegExp) => (ask ? r : undefined);
        switch (d > 2 ? 0 : this.c.below(6)) {
            case 0:
                return this.t(this.c.pick(PRIMITIVES), q(primitive));
            case 1:
                return ask ? this.vector(() => (this.c.chance(3) ? this.type(false, d + 1) : this.vectorOrPrimitive(d + 1))) : this.t('Foo');
            case 2:
                return this.t(this.c.pick(NAMES), q(plain));
            case 3:
                this.t('&');
                if (this.c.chance(2)) this.t('mut');
                return this.t(this.c.pick(PRIMITIVES), q(primitive));
            case 4:
                this.t('Foo', q(plain));
                this.t('<');
                this.type(false, d + 1);
                return this.t('>');
            default:
                this.name(q(moduleName));
                this.t('::');
                return this.name(q(call));
        }
    }
    private vectorOrPrimitive(d: number) {
        if (d < 3 && this.c.chance(2)) this.vector(() => this.vectorOrPrimitive(d + 1));
        else this.t(this.c.pick(PRIMITIVES), primitive);
    }
    private parameterType() {
        if (this.c.chance(3)) {
            this.t('&');
            this.t('mut', mut);
            this.t(this.c.pick(PRIMITIVES), primitive);
        } else this.type();
    }
    private generics() {
        if (!this.c.chance(3)) return;
        this.t('<');
        this.list(1 + this.c.times(2), () => {
            this.name();
            if (!this.c.chance(2)) return;
            this.t(':');
            this.t(this.c.pick(ABILITIES), ability);
            if (!this.c.chance(3)) return;
            this.t('+');
            this.t('drop', ability);
        });
        this.t('>');
    }
    private struct() {
        if (this.c.chance(4)) this.t('resource', item);
        this.t('struct', item);
        this.name(typeName);
        this.generics();
        if (this.c.chance(2)) {
            this.t('has', has);
            this.list(1 + this.c.times(2), () => this.t(this.c.pick(ABILITIES), ability));
        }
        this.t('{');
        this.list(this.c.times(3), () => {
            this.name();
            this.t(':');
            this.type();
        });
        this.t('}');
    }
    private signature() {
        this.t('fun', item);
        this.name(functionName);
        this.generics();
        this.t('(');
        this.list(this.c.times(3), () => {
            this.name();
            this.t(':');
            this.parameterType();
        });
        this.t(')');
        if (this.c.chance(2)) {
            this.t(':');
            this.type();
        }
        if (this.c.chance(3)) {
            this.t('acquires', item);
            this.list(1 + this.c.times(2), () => this.name());
        }
    }
    private native() {
        this.t('native', item);
        if (this.c.chance(2)) this.t('public', item);
        this.signature();
        this.t(';');
    }
    private spec() {
        this.t('spec', item);
        this.t(this.c.pick(['fun', 'struct', 'schema']), item);
        this.name(functionName);
        this.t('{');
        for (let n = this.c.times(3); n > 0; n--) {
            if (this.c.chance(5)) {
                this.t('{');
                if (this.c.chance(2)) {
                    this.t('let', control);
                    this.t('y');
                    this.t('=');
                    this.literal();
                }
                this.t('}');
            } else if (this.c.chance(4)) {
                this.t('pragma', control);
                this.t('verify');
                this.t('=');
                this.t('true', bool);
            } else {
                this.t(this.c.pick(['aborts_if', 'ensures', 'requires', 'invariant', 'include']), control);
                this.name();
                this.t('==');
                this.literal();
            }
            this.t(';');
        }
        this.t('}');
    }
    private fun(inModule: boolean) {
        if (inModule && this.c.chance(2)) {
            this.t('public', item);
            if (this.c.chance(3)) {
                this.t('(');
                this.t(this.c.pick(['script', 'friend']), item);
                this.t(')');
            }
        }
        this.signature();
        this.block();
    }
    private block() {
        this.t('{');
        this.depth++;
        for (let n = this.depth > 4 ? 0 : this.c.times(4); n > 0; n--) {
            this.statement();
            this.t(';');
        }
        if (this.c.chance(3)) this.expression();
        this.depth--;
        this.t('}');
    }
    private statement() {
        switch (this.c.below(7)) {
            case 0:
                this.t('let', control);
                this.name();
                if (this.c.chance(3)) {
                    this.t(':');
                    this.c.chance(2) ? this.t(this.c.pick(PRIMITIVES), primitive) : this.vector(() => this.vectorOrPrimitive(1));
                }
                this.t('=');
                return this.expression();
            case 1:
                this.t('while', control);
                this.t('(');
                this.expression();
                this.t(')');
                return this.block();
            case 2:
                return this.t(this.c.pick(['break', 'continue', 'return']), control);
            case 3:
                this.t('abort', control);
                return this.expression();
            case 4:
                this.t('assert', builtin);
                this.t('(');
                this.expression();
                this.t(',');
                this.literal();
                return this.t(')');
            case 5:
                this.t('loop', control);
                return this.block();
            default:
                return this.expression();
        }
    }
    private expression(d = 0): void {
        switch (d > 3 ? this.c.below(2) : this.c.below(14)) {
            case 0:
                return this.name();
            case 1:
                return this.literal();
            case 2:
                this.expression(d + 1);
                this.t(this.c.pick(OPERATORS));
                return this.expression(d + 1);
            case 3: {
                const n = this.c.pick(NAMES);
                this.t(n + this.c.pick(['(', ' (', '<u8>(', '<S, T> (', '<S >(']), call, [0, n.length]);
                return this.args(d);
            }
            case 4:
                this.name(moduleName);
                this.t('::');
                this.name(call);
                this.t('(');
                return this.args(d);
            case 5:
                this.t(this.c.pick(['move', 'copy']), moveCopy);
                return this.name();
            case 6:
                this.t('&');
                if (this.c.chance(2)) this.t('mut', mut);
                return this.name();
            case 7:
                this.t('if', control);
                this.t('(');
                this.expression(d + 1);
                this.t(')');
                this.expression(d + 1);
                this.t('else', control);
                return this.expression(d + 1);
            case 8:
                this.t(this.c.pick(['borrow_global', 'borrow_global_mut', 'move_from', 'exists']), builtin);
                this.t('<');
                this.name();
                this.t('>');
                this.t('(');
                return this.args(d);
            case 11:
                this.name();
                this.t('.');
                return this.name();
            case 12:
                this.t('Foo', plain);
                this.t('{');
                this.list(this.c.times(3), () => {
                    this.name();
                    this.t(':');
                    this.expression(d + 1);
                });
                return this.t('}');
            case 13:
                this.t(this.c.pick(['!', '*']));
                return this.expression(d + 1);
            case 9:
                this.t('(');
                this.expression(d + 1);
                this.t('as', control);
                this.t(this.c.pick(['u8', 'u64']), primitive);
                return this.t(')');
            case 10:
                return this.block();
            default:
                return this.name();
        }
    }
    private args(d: number) {
        this.list(this.c.times(3), () => this.expression(d + 1));
        this.t(')');
    }
}

const isWord = (c: string) => /[\w"]/.test(c);
type Span = { from: number; to: number; want?: RegExp; comment?: boolean };

/** Puts the tokens one after another, with white space and comments in between. */
function layout(w: Writer, c: Choices) {
    let text = '';
    const spans: Span[] = [];
    const ends: number[] = [];
    let comments = 0;
    w.out.forEach(({ text: t, want, part }, i) => {
        const prev = i ? w.out[i - 1].text : '';
        const last = prev.slice(-1);
        // `::` and `&mut` are written together with their neighbours.
        if (prev !== '::' && t !== '::' && !(prev === '&' && t === 'mut')) {
            const glued = prev !== '' && !(prev === '>' && t === '>') && ((isWord(last) && isWord(t[0])) || (/[^\w"]/.test(last) && /[^\w"(){};,]/.test(t[0])));
            switch (c.below(5)) {
                case 1:
                    text += ' ';
                    break;
                case 2:
                    text += '\n';
                    break;
                case 3:
                    text += '\n    ';
                    break;
                case 4: {
                    const k = c.pick(COMMENTS);
                    if (/[/*]$/.test(last)) text += ' ';
                    spans.push({ from: text.length, to: text.length + k.trimEnd().length, comment: true });
                    text += k;
                    comments++;
                    if (/^[/*]/.test(t)) text += ' ';
                    break;
                }
                default:
                    if (glued) text += ' ';
            }
        }
        spans.push({ from: text.length + part[0], to: text.length + part[1], want });
        text += t;
        if (w.ends.includes(i + 1)) ends.push(text.length);
    });
    return { text, spans, ends, comments };
}

const grammar = new Grammar(grammarJson);

export const highlighting: Prop<Case> = {
    id: 'C37',
    rule:
        'a case is a well-formed program with modules, scripts, address blocks, structs, functions, constants, imports and nested expressions, with generated ' +
        'names that contain keywords, literals that contain what looks like code or comments, and white space and comments anywhere between tokens; ' +
        'non-trivial: it has at least two items or a comment, and at least 20 tokens',
    assumptions: [
        'the editor reads grammars as its TextMate library does: the earliest match first, the end of a rule before its patterns, these in order',
        'a called name and its parenthesis are on one line, `vector` is next to `<`; spec blocks and arguments of types other than vectors are not asked about',
    ],
    runs: { quick: 12000, thorough: 400000 },
    arb: () =>
        fc.record({
            program: fc.array(fc.nat(65535), { maxLength: 160, size: 'max' }),
            gaps: fc.oneof(fc.constant([]), fc.array(fc.nat(65535), { maxLength: 300, size: 'max' })),
        }),
    fixed: [],
    run: async (c, ctx) => {
        const w = new Writer(new Choices(c.program));
        w.file();
        const { text, spans, ends, comments } = layout(w, new Choices(c.gaps));
        ctx.nontrivial((w.ends.length > 1 || comments > 0) && w.out.length >= 20);
        ctx.class('comments', comments > 0);
        ctx.class('several items', w.ends.length > 1);
        ctx.class('over 100 tokens', w.out.length > 100);
        ctx.class('strings with what looks like comments', /b"(\/\/|\/\*)/.test(text));
        if (CONTRIBUTED_SCOPE !== grammar.scope) fail(`the grammar of the language is announced as ${CONTRIBUTED_SCOPE} and is ${grammar.scope}`);
        const { scopes, open } = grammar.read(text);
        const show = (i: number) => `${scopes[i].join(' ') || 'nothing'}\n${text.slice(0, 3000)}`;
        const covered = new Set<number>();
        for (const s of spans) {
            for (let i = s.from; i < s.to; i++) {
                if (s.comment) covered.add(i);
                if (text[i] === '\n') continue;
                const what = JSON.stringify(text.slice(s.from, s.to));
                const last = scopes[i][scopes[i].length - 1];
                const comment = scopes[i].some((x) => x.startsWith('comment.'));
                const doc = s.comment && /^\/\*[*!][^*\/]/.test(text.slice(s.from, s.to));
                if (doc && !last.startsWith('comment.block.documentation')) fail(`the documentation ${what} at ${s.from} is shown as ${show(i)}`);
                if (s.comment && !doc && last.startsWith('comment.block.documentation')) fail(`the comment ${what} at ${s.from} is shown as ${show(i)}`);
                if (s.comment && !comment) fail(`the comment ${what} at ${s.from} is shown as ${show(i)}`);
                if (s.want && !s.want.test(last)) fail(`${what} at ${s.from} is not shown as ${s.want.source} but as ${show(i)}`);
            }
        }
        for (let i = 0; i < text.length; i++)
            if (!/\s/.test(text[i]) && !covered.has(i) && scopes[i].some((x) => x.startsWith('comment.'))) fail(`${JSON.stringify(text.slice(i, i + 20))} at ${i} is shown as a comment\n${text}`);
        for (const end of ends) {
            // What follows an item is read as the beginning of a file is.
            const after = grammar.read(text.slice(0, end)).open;
            if (after.length > 1) fail(`after ${JSON.stringify(text.slice(Math.max(0, end - 60), end))} is still open: ${after.map((f) => f.rule.name ?? f.rule.begin?.source).join(' / ')}\n${text}`);
        }
        if (open.length > 1) fail(`still open at the end: ${open.map((f) => f.rule.name ?? f.rule.begin?.source).join(' / ')}`);
    },
};
