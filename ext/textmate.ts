// A reader of TextMate grammars, as the editor's one works: the earliest match wins, the end of the open
// rule before its patterns, these in their order, and a rule that is entered and left without reading
// anything ends the reading of the line.

interface Rule {
    id: number;
    name?: string;
    contentName?: string;
    match?: RegExp;
    begin?: RegExp;
    end?: RegExp;
    endSource?: string;
    endLast?: boolean;
    captures: Captures;
    beginCaptures: Captures;
    endCaptures: Captures;
    patterns: any[];
    candidates?: Rule[];
}
type Captures = { group: number; name?: string }[];

/** Oniguruma's notation, where JavaScript's differs. */
function regexp(source: string): RegExp {
    if (/\\[GAzZhHRXK]|\(\?[imx#>]|\[\[:|[+*?}]\+|&&/.test(source.replace(/\\\\/g, ''))) throw new Error(`the notation of /${source}/ is not known here`);
    return new RegExp(source.replace(/\{,(\d+)\}/g, '{0,$1}'), 'gmd');
}
function captures(raw: any): Captures {
    return Object.entries(raw ?? {}).map(([k, v]: [string, any]) => {
        if (v.patterns) throw new Error('captures with patterns are not known here');
        return { group: Number(k), name: v.name };
    });
}

export interface Frame {
    rule: Rule;
    scopes: string[];
    inner: string[];
    enter: number;
}
export type Token = { from: number; to: number; scopes: string[] };

export class Grammar {
    private compiled = new Map<any, Rule>();
    private root: Rule;
    readonly scope: string;
    constructor(private raw: any) {
        this.scope = raw.scopeName;
        this.root = this.rule({ patterns: raw.patterns });
    }
    private rule(raw: any): Rule {
        let r = this.compiled.get(raw);
        if (r) return r;
        for (const key of Object.keys(raw))
            if (!['comment', 'name', 'contentName', 'match', 'begin', 'end', 'captures', 'beginCaptures', 'endCaptures', 'patterns', 'applyEndPatternLast', 'disabled'].includes(key))
                throw new Error(`a rule with ${key} is not known here`);
        if (raw.begin !== undefined && /\\\d/.test(raw.end)) throw new Error('references to groups are not known here');
        r = {
            id: this.compiled.size,
            name: raw.name,
            contentName: raw.contentName,
            match: raw.match === undefined ? undefined : regexp(raw.match),
            begin: raw.begin === undefined ? undefined : regexp(raw.begin),
            end: raw.end === undefined ? undefined : regexp(raw.end),
            endLast: !!raw.applyEndPatternLast,
            captures: captures(raw.captures),
            beginCaptures: captures(raw.beginCaptures ?? raw.captures),
            endCaptures: captures(raw.endCaptures ?? raw.captures),
            patterns: raw.patterns ?? [],
        };
        this.compiled.set(raw, r);
        return r;
    }
    /** The rules that can start inside `r`, in order, with groups and references to the repository opened. */
    private candidates(r: Rule): Rule[] {
        if (r.candidates) return r.candidates;
        const out: Rule[] = [];
        const open = (patterns: any[], inside: any[]) => {
            for (const p of patterns) {
                let raw = p;
                if (p.include !== undefined) {
                    if (p.include === '$self' || p.include === '$base') raw = { patterns: this.raw.patterns };
                    else if (p.include[0] === '#') raw = this.raw.repository[p.include.slice(1)];
                    else throw new Error(`${p.include} is not known here`);
                    if (raw === undefined) continue;
                }
                if (raw.disabled) continue;
                if (raw.match === undefined && raw.begin === undefined) {
                    if (!inside.includes(raw)) open(raw.patterns ?? [], [...inside, raw]);
                } else out.push(this.rule(raw));
            }
        };
        open(r.patterns, []);
        r.candidates = out;
        return out;
    }
    start(): Frame[] {
        return [{ rule: this.root, scopes: [this.scope], inner: [this.scope], enter: -1 }];
    }
    line(text: string, before: Frame[]): { tokens: Token[]; after: Frame[] } {
        const s = text + '\n';
        const stack = before.map((f) => ({ ...f, enter: -1 }));
        const tokens: Token[] = [];
        let done = 0;
        const emit = (to: number, scopes: string[]) => {
            if (to > done) tokens.push({ from: done, to, scopes });
            done = Math.max(done, to);
        };
        const emitCaptures = (m: any, c: Captures, scopes: string[]) => {
            // Groups are nested or apart; the text of each gets its name on top of the names around it.
            const spans = c.filter((x) => m.indices[x.group] && m.indices[x.group][0] < m.indices[x.group][1]).map((x) => ({ name: x.name, from: m.indices[x.group][0], to: m.indices[x.group][1] }));
            const cuts = [...new Set([m.index, m.index + m[0].length, ...spans.flatMap((x) => [x.from, x.to])])].sort((a, b) => a - b);
            for (const to of cuts.slice(1)) emit(to, [...scopes, ...spans.filter((x) => x.from <= done && to <= x.to && x.name).map((x) => x.name!)]);
        };
        const find = (re: RegExp, from: number) => {
            re.lastIndex = from;
            return re.exec(s) as any;
        };
        const with_ = (scopes: string[], name?: string) => (name ? [...scopes, ...name.split(' ')] : scopes);
        let pos = 0;
        while (true) {
            const top = stack[stack.length - 1];
            let best: any = null;
            let which: Rule | 'end' | undefined;
            const take = (m: any, r: Rule | 'end') => {
                if (m && (!best || m.index < best.index)) [best, which] = [m, r];
            };
            if (top.rule.end && !top.rule.endLast) take(find(top.rule.end, pos), 'end');
            for (const r of this.candidates(top.rule)) take(find((r.match ?? r.begin)!, pos), r);
            if (top.rule.end && top.rule.endLast) take(find(top.rule.end, pos), 'end');
            if (!best) {
                emit(s.length, top.inner);
                break;
            }
            const end = best.index + best[0].length;
            const advanced = end > pos;
            emit(best.index, top.inner);
            if (which === 'end') {
                emitCaptures(best, top.rule.endCaptures, top.scopes);
                emit(end, top.scopes);
                stack.pop();
                if (!advanced && top.enter === pos) {
                    // Entered and left in one place.
                    stack.push(top);
                    emit(s.length, top.inner);
                    break;
                }
            } else if (which!.begin) {
                const r = which as Rule;
                const scopes = with_(top.inner, r.name);
                emitCaptures(best, r.beginCaptures, scopes);
                emit(end, scopes);
                const again = !advanced && stack.some((f) => f.enter === pos && f.rule === r);
                if (again) {
                    emit(s.length, top.inner);
                    break;
                }
                stack.push({ rule: r, scopes, inner: with_(scopes, r.contentName), enter: pos });
            } else {
                const r = which as Rule;
                const scopes = with_(top.inner, r.name);
                emitCaptures(best, r.captures, scopes);
                emit(end, scopes);
                if (!advanced) {
                    if (stack.length > 1) stack.pop();
                    emit(s.length, stack[stack.length - 1].inner);
                    break;
                }
            }
            pos = end;
        }
        return { tokens, after: stack };
    }
    /** The scopes of every character, and the rules that are open at the end. */
    read(text: string): { scopes: string[][]; open: Frame[] } {
        const scopes: string[][] = [];
        let open = this.start();
        for (const line of text.split('\n')) {
            const r = this.line(line, open);
            for (const t of r.tokens) for (let i = t.from; i < t.to; i++) scopes.push(t.scopes);
            open = r.after;
        }
        scopes.length = text.length;
        return { scopes, open };
    }
}
