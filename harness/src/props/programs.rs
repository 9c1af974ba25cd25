//! C04 (well-formed programs) and C06 (broken programs).
use parser::SyntaxKind::{self, *};

use super::parsing::{parse, quoted};
use crate::engine::{Ctx, Prop, Res, PROP};
use crate::gen::{self, Gen};
use crate::lex;
use crate::src::Src;
use crate::stretch;
use crate::tree::{self, T};

fn fuel(src: &mut Src) -> i64 {
    *src.pick(&[40, 10, 80, 200])
}

fn c04_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = fuel(src);
    let mut g = Gen { src, fuel, max_depth: 5 };
    let tree = match g.src.weighted(&[4, 2, 1, 1]) {
        0 => g.file(),
        // Concentrate on one construct.
        1 => {
            let depth = if g.src.chance(1, 20) { 60 } else { 6 };
            let e = T::N(EXPR_STMT, vec![g.expr(depth, 1), tree::tok(";")]);
            wrap(vec![e])
        }
        2 => {
            let depth = if g.src.chance(1, 10) { 40 } else { 5 };
            let p = T::N(LET_STMT, vec![tree::tok("let"), g.pattern(depth), tree::tok(";")]);
            wrap(vec![p])
        }
        _ => {
            let items = T::N(ITEM_LIST, vec![tree::tok("{"), g.struct_(), g.function(), tree::tok("}")]);
            T::N(SOURCE_FILE, vec![T::N(SCRIPT_DEF, vec![tree::tok("script"), items])])
        }
    };
    let text = gen::layout(src, &tree.tokens());
    c04_check(&tree, &text, ctx)
}

fn wrap(stmts: Vec<T>) -> T {
    let mut block = vec![tree::tok("{")];
    block.extend(stmts);
    block.push(tree::tok("}"));
    let name = T::N(NAME, vec![tree::leaf(IDENT, "f")]);
    let params = T::N(PARAM_LIST, vec![tree::tok("("), tree::tok(")")]);
    let f = T::N(FUNCTION_DEF, vec![tree::tok("fun"), name, params, T::N(BLOCK_EXPR, block)]);
    let items = T::N(ITEM_LIST, vec![tree::tok("{"), f, tree::tok("}")]);
    T::N(SOURCE_FILE, vec![T::N(SCRIPT_DEF, vec![tree::tok("script"), items])])
}

fn c04_check(tree: &T, text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| format!("{}\n{}", quoted(text), tree.dump()));
    ctx.key(text.as_bytes());
    ctx.nontrivial(tree.count(FUNCTION_DEF) + tree.count(STRUCT) > 0);
    for (kind, class) in [
        (BIN_EXPR, "binary expression"),
        (PREFIX_EXPR, "prefix expression"),
        (CALL_EXPR, "call"),
        (DOT_EXPR, "field access"),
        (RECORD_EXPR, "record expression"),
        (RECORD_PAT, "record pattern"),
        (TUPLE_PAT, "tuple pattern"),
        (REF_TYPE, "reference type"),
        (TYPE_BOUND, "type bound"),
        (ADDRESS_DEF, "address block"),
        (ADDRESS_LIT, "address literal"),
        (PAREN_EXPR, "parenthesised"),
        (LET_STMT, "let"),
    ] {
        ctx.class_if(tree.count(kind) > 0, class);
    }
    let parse = parse(text)?;
    if let Some(e) = parse.errors().first() {
        return Err(format!("error {:?} at {:?}", e.to_string(), e.range()));
    }
    match tree.diff(&tree::of_node(&parse.syntax_node())) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

/// `a op b op c`, a prefix operator on either side of a binary one, and `a op b op c op d`.
fn c04_operators() -> u64 {
    let n = gen::OPS.len() as u64;
    n * n + 2 * 3 * n + n * n * n
}
fn c04_fixed_n() -> u64 {
    c04_operators() + stretch::count()
}

fn c04_fixed(i: u64, ctx: &mut Ctx) -> Res {
    if i >= c04_operators() {
        let (what, tree, text) = stretch::program(i - c04_operators());
        ctx.class("stretched construct");
        return c04_check(&tree, &text, ctx).map_err(|e| format!("{}: {}", what, e));
    }
    let n = gen::OPS.len() as u64;
    let name = |s: &str| {
        let segment = T::N(PATH_SEGMENT, vec![T::N(NAME_REF, vec![tree::leaf(IDENT, s)])]);
        T::N(PATH_EXPR, vec![T::N(PATH, vec![segment])])
    };
    let bin = |a: T, op: &str, b: T| T::N(BIN_EXPR, vec![a, tree::tok(op), b]);
    let prefix = ["-", "!", "*"];
    let e = if i < n * n {
        let (p, q) = (gen::OPS[(i / n) as usize], gen::OPS[(i % n) as usize]);
        if q.1 > p.1 {
            bin(name("a"), p.0, bin(name("b"), q.0, name("c")))
        } else {
            bin(bin(name("a"), p.0, name("b")), q.0, name("c"))
        }
    } else if i < n * n + 6 * n {
        let i = i - n * n;
        let (op, pre, right) = (gen::OPS[(i % n) as usize].0, prefix[(i / n % 3) as usize], i / n / 3 == 1);
        let minus = |e| T::N(PREFIX_EXPR, vec![tree::tok(pre), e]);
        if right {
            bin(name("a"), op, minus(name("b")))
        } else {
            bin(minus(name("a")), op, name("b"))
        }
    } else {
        // Three operators: fold by precedence climbing over the list.
        let i = i - n * n - 6 * n;
        let ops: Vec<(&str, u8)> =
            [i / n / n % n, i / n % n, i % n].iter().map(|it| gen::OPS[*it as usize]).collect();
        let mut out = vec![name("a")];
        let mut stack: Vec<(&str, u8)> = Vec::new();
        let reduce = |out: &mut Vec<T>, op: &str| {
            let b = out.pop().unwrap();
            let a = out.pop().unwrap();
            out.push(bin(a, op, b));
        };
        for (op, operand) in ops.into_iter().zip(["b", "c", "d"]) {
            while stack.last().map_or(false, |it| it.1 >= op.1) {
                let top = stack.pop().unwrap();
                reduce(&mut out, top.0);
            }
            stack.push(op);
            out.push(name(operand));
        }
        while let Some(top) = stack.pop() {
            reduce(&mut out, top.0);
        }
        out.pop().unwrap()
    };
    let tree = wrap(vec![T::N(EXPR_STMT, vec![e, tree::tok(";")])]);
    ctx.class("enumerated operators");
    c04_check(&tree, &tree.tokens().join(" "), ctx)
}

pub static C04: Prop = Prop {
    id: "C04",
    rule: "a case is a program drawn from the grammar together with its tree, laid out at random; first all \
           combinations of two and three binary operators and of a prefix with a binary operator; non-trivial: \
           it has a function or a struct",
    assumptions: &["the grammar and the tree shapes are those of the stored parser tests and of the parser's \
                    documentation comments"],
    cases: (60_000, 3_000_000),
    case: c04_case,
    fixed: Some((|_| c04_fixed_n(), c04_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C06

/// A token of the expected tree and where it stands.
struct Tok {
    text: String,
    kind: SyntaxKind,
    parent: SyntaxKind,
}

/// A node of the expected tree and the tokens it covers.
#[derive(Clone)]
struct Span {
    kind: SyntaxKind,
    parent: SyntaxKind,
    start: usize,
    end: usize,
    /// Position among the children of the parent, and the parent's span.
    child: usize,
    siblings: usize,
}

fn collect(t: &T, parent: SyntaxKind, child: usize, siblings: usize, toks: &mut Vec<Tok>, spans: &mut Vec<Span>) {
    match t {
        T::L(kind, text) => toks.push(Tok { text: text.clone(), kind: *kind, parent }),
        T::N(kind, kids) => {
            let start = toks.len();
            let at = spans.len();
            spans.push(Span { kind: *kind, parent, start, end: start, child, siblings });
            for (i, kid) in kids.iter().enumerate() {
                collect(kid, *kind, i, kids.len(), toks, spans);
            }
            spans[at].end = toks.len();
        }
    }
}

/// A mistake: tokens `at..until` are replaced.
struct Mistake {
    what: &'static str,
    at: usize,
    until: usize,
    insert: Vec<&'static str>,
}

/// Where parsing goes on as before at the end of the construct with the mistake: the innermost of the
/// constructs around it decides, and in a body the token after it.
fn is_contained(m: &Mistake, toks: &[Tok], spans: &[Span]) -> bool {
    if m.what.ends_with("bracket") || m.what == "cut off" || m.what == "missing keyword" {
        return false;
    }
    let around = spans.iter().filter(|s| s.start < m.at && m.at < s.end).map(|s| s.kind);
    let inner = around
        .filter(|it| {
            let kinds = [
                PARAM_LIST, RECORD_FIELD_LIST, GENERIC_PARAM_LIST, BLOCK_EXPR, STRUCT, FUNCTION_DEF, ITEM_LIST,
                ADDRESS_DEF, ADDRESS_ITEM_LIST, SCRIPT_DEF, MODULE_DEF, RET_TYPE,
            ];
            kinds.contains(it)
        })
        .last();
    let next = toks.get(m.until).map_or("", |it| it.text.as_str());
    match inner {
        Some(PARAM_LIST | RECORD_FIELD_LIST | RET_TYPE | FUNCTION_DEF | ITEM_LIST | ADDRESS_ITEM_LIST) => true,
        Some(BLOCK_EXPR) => match m.what {
            "missing operand" | "missing value" => next == ";",
            "missing type" => matches!(next, ";" | "="),
            "missing name" => next == ";" || next == "=" && matches!(toks[m.at - 1].text.as_str(), "let" | "mut"),
            _ => false,
        },
        None => true,
        _ => false,
    }
}

/// Whether an expression may not go on with this token.
fn starts_operand(t: &Tok) -> bool {
    matches!(t.kind, IDENT | INTEGER_NUMBER | BYTE_STRING | TRUE_KW | FALSE_KW | ATSIGN)
}

fn mistakes(src: &mut Src, toks: &[Tok], spans: &[Span]) -> Option<Mistake> {
    let next = |i: usize| toks.get(i).map_or("", |it| it.text.as_str());
    let remove = |what, at, until| Mistake { what, at, until, insert: vec![] };
    let n = toks.len();
    match src.below(16) {
        // A bracket is missing.
        0 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| match toks[*i].text.as_str() {
                    "{" | "}" | "(" | ")" => true,
                    "<" | ">" => toks[*i].parent == GENERIC_PARAM_LIST,
                    _ => false,
                })
                .collect();
            pick(src, &all).map(|i| remove("missing bracket", i, i + 1))
        }
        // A bracket too many.
        1 => {
            let all: Vec<usize> = (0..=n).filter(|i| *i == 0 || toks[*i - 1].text != "::").collect();
            let bracket = *src.pick(&["}", ")", "{", "("]);
            pick(src, &all).map(|i| Mistake { what: "extra bracket", at: i, until: i, insert: vec![bracket] })
        }
        // A name is missing.
        2 => {
            let all: Vec<&Span> = spans
                .iter()
                .filter(|s| match (s.kind, s.parent) {
                    (NAME, FUNCTION_DEF | STRUCT | MODULE_DEF | PARAM | RECORD_FIELD) => true,
                    // An empty list would be fine.
                    (TYPE_PARAM, _) => s.siblings > 3,
                    (NAME, TYPE_PARAM) => next(s.end) == ":",
                    (IDENT_PAT, LET_STMT) => true,
                    (IDENT_PAT, TUPLE_PAT) => s.siblings > 4 && next(s.end) == ",",
                    (NAME_REF, DOT_EXPR) => true,
                    (PATH_SEGMENT, PATH) => s.child > 0 && !matches!(next(s.end), "{" | "*"),
                    (ADDRESS_IDENT, ADDRESS_DEF) => true,
                    _ => false,
                })
                .filter(|s| s.kind != TYPE_PARAM || next(s.end) == ",")
                .collect();
            pick(src, &all).map(|s| remove("missing name", s.start, s.end))
        }
        // The colon of a type annotation is missing.
        3 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| {
                    toks[*i].text == ":"
                        && match toks[*i].parent {
                            PARAM | RECORD_FIELD | RET_TYPE | TYPE_PARAM | RECORD_PAT_FIELD => true,
                            RECORD_EXPR_FIELD => starts_operand(&toks[*i + 1]),
                            _ => false,
                        }
                })
                // `a & T`, `a &mut T` do not matter: no list goes on with `&`.
                .collect();
            pick(src, &all).map(|i| remove("missing colon", i, i + 1))
        }
        // The type of an annotation is missing.
        4 => {
            let all: Vec<&Span> = spans
                .iter()
                .filter(|s| {
                    matches!(s.kind, PATH_TYPE | REF_TYPE)
                        && matches!(s.parent, PARAM | RECORD_FIELD | RET_TYPE | LET_STMT)
                })
                .collect();
            pick(src, &all).map(|s| remove("missing type", s.start, s.end))
        }
        // A separator is missing.
        5 => {
            let all: Vec<usize> = (0..n.saturating_sub(1))
                .filter(|i| {
                    toks[*i].text == ","
                        && !matches!(toks[*i + 1].text.as_str(), "}" | ")" | ">")
                        && match toks[*i].parent {
                            ARG_LIST | RECORD_EXPR_FIELD_LIST => starts_operand(&toks[*i + 1]),
                            TUPLE_PAT => toks[*i + 1].kind != L_BRACE,
                            _ => true,
                        }
                })
                .collect();
            pick(src, &all).map(|i| remove("missing comma", i, i + 1))
        }
        // An operand is missing.
        6 => {
            let all: Vec<&Span> = spans
                .iter()
                .filter(|s| match s.parent {
                    BIN_EXPR if s.child == 2 => matches!(next(s.end), ";" | ")" | "," | "}" | "let"),
                    BIN_EXPR if s.child == 0 => !matches!(next(s.end), "-" | "*"),
                    PREFIX_EXPR => matches!(next(s.end), ";" | ")" | "," | "}" | "let"),
                    _ => false,
                })
                .collect();
            pick(src, &all).map(|s| remove("missing operand", s.start, s.end))
        }
        // A keyword is missing.
        7 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| matches!(toks[*i].kind, MODULE_KW | SCRIPT_KW | ADDRESS_KW | FUN_KW | STRUCT_KW))
                .collect();
            pick(src, &all).map(|i| remove("missing keyword", i, i + 1))
        }
        // A token that belongs nowhere.
        8 => {
            let all: Vec<usize> = (0..=n).collect();
            let stray = *src.pick(&[
                "$", "?", "#", "]", "[", "'", "\u{e9}", "use", "const", "while", "if", "else", "as", "return",
                "break", "continue", "move", "==", "&&", "||", "<<", ">>", "<=", ">=", "!=", "==>", "<==>",
            ]);
            pick(src, &all).map(|i| Mistake { what: "stray token", at: i, until: i, insert: vec![stray] })
        }
        // The end is missing: anywhere but between definitions.
        9 => {
            let whole: Vec<usize> =
                spans.iter().filter(|s| s.parent == SOURCE_FILE).map(|s| s.end).chain(Some(0)).collect();
            let all: Vec<usize> = (1..n).filter(|i| !whole.contains(i)).collect();
            pick(src, &all).map(|i| remove("cut off", i, n))
        }
        // A separator that does not belong there.
        10 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| match toks[*i].text.as_str() {
                    "," => LISTS.contains(&toks[*i].parent),
                    ";" => matches!(toks[*i].parent, EXPR_STMT | LET_STMT),
                    _ => false,
                })
                .collect();
            pick(src, &all).map(|i| {
                let other = if toks[i].text == "," { ";" } else { "," };
                Mistake { what: "wrong separator", at: i, until: i + 1, insert: vec![other] }
            })
        }
        // A separator too many.
        11 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| match toks[*i].text.as_str() {
                    "," | "(" | "{" | "<" => LISTS.contains(&toks[*i].parent),
                    "::" | ":" | ";" | "." | "=" => true,
                    _ => false,
                })
                .collect();
            pick(src, &all).map(|i| {
                let more = match toks[i].text.as_str() {
                    "::" => *src.pick(&["::", ":"]),
                    ":" => ":",
                    ";" => ";",
                    "." => ".",
                    "=" => "=",
                    _ => ",",
                };
                Mistake { what: "extra separator", at: i + 1, until: i + 1, insert: vec![more] }
            })
        }
        // A name, an operand or an annotation too many.
        12 => {
            let all: Vec<(usize, bool)> = spans
                .iter()
                .filter_map(|s| match (s.kind, s.parent) {
                    (NAME, FUNCTION_DEF | STRUCT | MODULE_DEF | PARAM | RECORD_FIELD | TYPE_PARAM) => {
                        Some((s.end, false))
                    }
                    (_, ARG_LIST) => Some((s.end, false)),
                    (PATH_TYPE | REF_TYPE, PARAM | RECORD_FIELD | RET_TYPE) => Some((s.end, src.bool())),
                    _ => None,
                })
                .collect();
            pick(src, &all).map(|(at, annotation)| match annotation {
                true => Mistake { what: "extra annotation", at, until: at, insert: vec![":", "T"] },
                false => Mistake { what: "extra name or operand", at, until: at, insert: vec!["x"] },
            })
        }
        // A keyword twice.
        13 => {
            let all: Vec<usize> = (0..n)
                .filter(|i| {
                    matches!(toks[*i].kind, MODULE_KW | SCRIPT_KW | ADDRESS_KW | FUN_KW | STRUCT_KW | LET_KW | MUT_KW)
                })
                .collect();
            let keyword = |i: usize| match toks[i].kind {
                MODULE_KW => "module",
                SCRIPT_KW => "script",
                ADDRESS_KW => "address",
                FUN_KW => "fun",
                STRUCT_KW => "struct",
                LET_KW => "let",
                _ => "mut",
            };
            pick(src, &all).map(|i| Mistake {
                what: "keyword twice",
                at: i + 1,
                until: i + 1,
                insert: vec![keyword(i)],
            })
        }
        // A semicolon for a body.
        14 => {
            let all: Vec<&Span> = spans
                .iter()
                .filter(|s| matches!((s.kind, s.parent), (BLOCK_EXPR, FUNCTION_DEF) | (ADDRESS_ITEM_LIST, _)))
                .collect();
            pick(src, &all).map(|s| Mistake {
                what: "semicolon for a body",
                at: s.start,
                until: s.end,
                insert: vec![";"],
            })
        }
        // A value is missing.
        _ => {
            let all: Vec<(usize, usize)> = spans
                .iter()
                .filter(|s| s.start > 0)
                .filter_map(|s| match (s.parent, toks[s.start - 1].text.as_str()) {
                    (RECORD_EXPR_FIELD, ":") if matches!(next(s.end), "," | "}") => Some((s.start, s.end)),
                    (LET_STMT, "=") if matches!(next(s.end), ";" | "}") => Some((s.start, s.end)),
                    (ADDRESS_LIT, _) => Some((s.start, s.end)),
                    _ => None,
                })
                .chain((1..n).filter(|i| toks[i - 1].kind == ATSIGN).map(|i| (i, i + 1)))
                .collect();
            pick(src, &all).map(|(at, until)| remove("missing value", at, until))
        }
    }
}

const LISTS: &[SyntaxKind] = &[
    PARAM_LIST, RECORD_FIELD_LIST, GENERIC_PARAM_LIST, ARG_LIST, TUPLE_PAT, RECORD_PAT_FIELD_LIST,
    RECORD_EXPR_FIELD_LIST,
];

fn pick<X: Clone>(src: &mut Src, items: &[X]) -> Option<X> {
    if items.is_empty() {
        None
    } else {
        Some(items[src.index(items.len())].clone())
    }
}

fn c06_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = fuel(src);
    let mut g = Gen { src, fuel, max_depth: 4 };
    let mut kids = Vec::new();
    for _ in 0..g.src.range(1, 4) {
        kids.push(g.top_level());
    }
    let tree = T::N(SOURCE_FILE, kids);
    let (mut toks, mut spans) = (Vec::new(), Vec::new());
    collect(&tree, SOURCE_FILE, 0, 0, &mut toks, &mut spans);
    // Kinds of mistakes that do not apply are drawn again.
    let mistake = (0..6).find_map(|_| mistakes(src, &toks, &spans));
    let m = match mistake {
        Some(it) => it,
        None => {
            ctx.class("no mistake applies");
            return Ok(());
        }
    };
    // The address of a module is only recognised by the `::` after it.
    let in_address = m.at > 0 && toks[m.at - 1].parent == ADDRESS_IDENT && m.at >= 2 && toks[m.at - 2].text == "module";
    if in_address {
        ctx.class("not judged");
        return Ok(());
    }
    let mut tokens: Vec<String> = toks[..m.at].iter().map(|it| it.text.clone()).collect();
    tokens.extend(m.insert.iter().map(|it| it.to_string()));
    tokens.extend(toks[m.until..].iter().map(|it| it.text.clone()));
    let (text, ends) = layout_with_ends(src, &tokens);
    let limit = if m.at == 0 { 0 } else { ends[m.at - 1] };
    ctx.show(|| format!("{}: {} (after byte {})", m.what, quoted(&text), limit));
    ctx.key(text.as_bytes());
    ctx.class(m.what);
    ctx.nontrivial(m.at > 0);

    let parse = parse(&text)?;
    if parse.errors().is_empty() {
        return Err(format!("{}: no error is reported", m.what));
    }
    for e in parse.errors() {
        if usize::from(e.range().start()) < limit {
            return Err(format!(
                "{}: error {:?} at {:?}, but the text is right up to {}",
                m.what,
                e.to_string(),
                e.range(),
                limit
            ));
        }
    }
    // The definitions before the mistake are kept.
    let got = match tree::of_node(&parse.syntax_node()) {
        T::N(_, kids) => kids,
        _ => return Err("the root is a token".into()),
    };
    let expected = match tree {
        T::N(_, kids) => kids,
        _ => unreachable!(),
    };
    let mut end = 0;
    let mut kept = 0;
    for (i, def) in expected.iter().enumerate() {
        end += def.tokens().len();
        if end > m.at {
            break;
        }
        match got.get(i) {
            Some(it) => {
                if let Some(d) = def.diff(it) {
                    return Err(format!("{}: definition {} is not kept: {}", m.what, i, d));
                }
            }
            None => return Err(format!("{}: definition {} is lost", m.what, i)),
        }
        kept += 1;
    }
    ctx.class_if(kept > 0, "definitions before the mistake");
    Ok(())
}

// ---------------------------------------------------------------- C40

const DEFINITIONS: &[SyntaxKind] = &[FUNCTION_DEF, STRUCT, MODULE_DEF, SCRIPT_DEF, ADDRESS_DEF];

/// The definitions of the tree, outer ones first, and the token that each starts with.
fn definitions<'a>(t: &'a T, at: &mut usize, res: &mut Vec<(usize, &'a T)>) {
    match t {
        T::L(..) => *at += 1,
        T::N(kind, kids) => {
            if DEFINITIONS.contains(kind) {
                res.push((*at, t));
            }
            kids.iter().for_each(|it| definitions(it, at, res));
        }
    }
}

/// Several definitions, most of them with a mistake: each is parsed like it is alone.
fn c40_several(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut texts = Vec::new();
    let mut wrong = 0;
    for _ in 0..src.range(2, 5) {
        let fuel = fuel(src);
        let mut g = Gen { src, fuel, max_depth: 4 };
        let tree = T::N(SOURCE_FILE, vec![g.top_level()]);
        let (mut toks, mut spans) = (Vec::new(), Vec::new());
        collect(&tree, SOURCE_FILE, 0, 0, &mut toks, &mut spans);
        let mut tokens: Vec<String> = toks.iter().map(|it| it.text.clone()).collect();
        let mistake = match src.chance(3, 4) {
            true => (0..12).find_map(|_| {
                // What is left over at the end of one and at the start of the next is one mistake.
                mistakes(src, &toks, &spans).filter(|it| it.at < toks.len() && is_contained(it, &toks, &spans))
            }),
            false => None,
        };
        if let Some(m) = mistake {
            tokens.splice(m.at..m.until, m.insert.iter().map(|it| it.to_string()));
            wrong += 1;
        }
        texts.push(layout_with_ends(src, &tokens).0);
    }
    let whole = texts.join("\n");
    ctx.show(|| format!("{} definitions, {} with a mistake: {}", texts.len(), wrong, quoted(&whole)));
    ctx.key(whole.as_bytes());
    ctx.class("several mistakes");
    ctx.nontrivial(wrong > 1);

    let kids = |text: &str| -> Result<Vec<T>, String> {
        match tree::of_node(&parse(text)?.syntax_node()) {
            T::N(_, kids) => Ok(kids),
            _ => Err("the root is a token".into()),
        }
    };
    let errors = |text: &str, offset: usize| -> Result<Vec<(usize, String)>, String> {
        let parse = parse(text)?;
        Ok(parse.errors().iter().map(|e| (usize::from(e.range().start()) + offset, e.to_string())).collect())
    };
    let got = kids(&whole)?;
    let got_errors = errors(&whole, 0)?;
    let (mut n, mut n_errors, mut offset) = (0, 0, 0);
    for (i, text) in texts.iter().enumerate() {
        for kid in kids(text)? {
            match got.get(n) {
                Some(it) => {
                    if let Some(d) = kid.diff(it) {
                        return Err(format!("definition {} is not what it is alone, {}: {}", i, quoted(text), d));
                    }
                }
                None => return Err(format!("definition {} is lost: {}", i, quoted(text))),
            }
            n += 1;
        }
        for e in errors(text, offset)? {
            if got_errors.get(n_errors) != Some(&e) {
                let got = got_errors.get(n_errors);
                return Err(format!("definition {}: error {:?} instead of {:?}, as alone: {}", i, got, e, quoted(text)));
            }
            n_errors += 1;
        }
        offset += text.len() + 1;
    }
    if n < got.len() || n_errors < got_errors.len() {
        return Err("there is more than the definitions have alone".into());
    }
    Ok(())
}

fn c40_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 3) {
        return c40_several(src, ctx);
    }
    let fuel = fuel(src);
    let mut g = Gen { src, fuel, max_depth: 4 };
    let mut kids = Vec::new();
    for _ in 0..g.src.range(1, 5) {
        kids.push(g.top_level());
    }
    let tree = T::N(SOURCE_FILE, kids);
    let (mut toks, mut spans) = (Vec::new(), Vec::new());
    collect(&tree, SOURCE_FILE, 0, 0, &mut toks, &mut spans);
    let mistake = (0..12).find_map(|_| mistakes(src, &toks, &spans).filter(|it| is_contained(it, &toks, &spans)));
    let m = match mistake {
        Some(it) => it,
        None => {
            ctx.class("no mistake applies");
            return Ok(());
        }
    };
    let mut tokens: Vec<String> = toks[..m.at].iter().map(|it| it.text.clone()).collect();
    tokens.extend(m.insert.iter().map(|it| it.to_string()));
    tokens.extend(toks[m.until..].iter().map(|it| it.text.clone()));
    let (text, ends) = layout_with_ends(src, &tokens);
    ctx.show(|| format!("{}: {}", m.what, quoted(&text)));
    ctx.key(text.as_bytes());
    ctx.class(m.what);

    let mut all = Vec::new();
    definitions(&tree, &mut 0, &mut all);
    let later: Vec<_> = all.into_iter().filter(|it| it.0 >= m.until).collect();
    ctx.nontrivial(!later.is_empty());
    ctx.class_if(later.iter().any(|it| matches!(it.1.kind(), FUNCTION_DEF | STRUCT)), "later functions or structs");
    let parse = parse(&text)?;
    let got = tree::of_node(&parse.syntax_node());
    let mut parsed = Vec::new();
    definitions(&got, &mut 0, &mut parsed);
    if parsed.len() < later.len() {
        return Err(format!("{}: of {} later definitions, {} are there", m.what, later.len(), parsed.len()));
    }
    let parsed = &parsed[parsed.len() - later.len()..];
    for ((_, expected), (_, got)) in later.iter().zip(parsed) {
        if let Some(d) = expected.diff(got) {
            return Err(format!("{}: a later definition has changed: {}", m.what, d));
        }
    }
    if let Some((first, _)) = later.first() {
        // The first token of the first of them is the last place to report the mistake at.
        let limit = ends[*first + m.insert.len() - (m.until - m.at)];
        for e in parse.errors() {
            if usize::from(e.range().start()) >= limit {
                return Err(format!("{}: error {:?} at {:?}, in a later definition", m.what, e.to_string(), e.range()));
            }
        }
    }
    Ok(())
}

pub static C40: Prop = Prop {
    id: "C40",
    rule: "a case is a generated program of one to five top-level definitions with one mistake, of those kinds and at \
           those places that the property names, or with one in several of them; non-trivial: a definition comes \
           after the mistake, or at least two have one",
    assumptions: &["mistakes in brackets, generic parameters, the headers of modules and structs, and elsewhere in \
                    bodies are not judged: how much is skipped there is up to the parser"],
    cases: (60_000, 4_000_000),
    case: c40_case,
    ..PROP
};

fn layout_with_ends(src: &mut Src, tokens: &[String]) -> (String, Vec<usize>) {
    let mut s = String::new();
    let mut ends = Vec::new();
    let plain = src.chance(1, 2);
    for (i, t) in tokens.iter().enumerate() {
        if i > 0 {
            let must = !lex::can_touch(&tokens[i - 1], t);
            if plain {
                s.push(' ');
            } else {
                let trivia = gen::trivia(src, must);
                if tokens[i - 1] == "/" && trivia.starts_with('/') {
                    s.push(' ');
                }
                s.push_str(&trivia);
            }
        }
        s.push_str(t);
        ends.push(s.len());
    }
    if src.bool() {
        s.push('\n');
    }
    (s, ends)
}

pub static C06: Prop = Prop {
    id: "C06",
    rule: "a case is a generated program of one to four definitions with one mistake of sixteen kinds at a random \
           applicable place; non-trivial: something precedes the mistake",
    assumptions: &[
        "a mistake between the address of a module and its `::` is not judged: the parser decides there by \
         looking ahead",
    ],
    cases: (80_000, 4_000_000),
    case: c06_case,
    ..PROP
};

// ---------------------------------------------------------------- C43

const TYPES: &[SyntaxKind] = &[PATH_TYPE, REF_TYPE];
const PATTERNS: &[SyntaxKind] = &[IDENT_PAT, RECORD_PAT, TUPLE_PAT, PAREN_PAT];

/// What a message has to mention (one of it) when this part of a program is missing.
fn asked_for(part: SyntaxKind, parent: SyntaxKind, inner: bool) -> Option<&'static [&'static str]> {
    let res: &'static [&'static str] = match (part, parent) {
        (ADDRESS_IDENT, ADDRESS_DEF) => &["address"],
        (BLOCK_EXPR, FUNCTION_DEF) => &["block", "body"],
        (PARAM_LIST, FUNCTION_DEF) => &["argument", "parameter"],
        (ITEM_LIST | ADDRESS_ITEM_LIST | RECORD_FIELD_LIST, MODULE_DEF | SCRIPT_DEF | ADDRESS_DEF | STRUCT) => &["{"],
        (NAME, FUNCTION_DEF | STRUCT | MODULE_DEF) => &["name", "identifier"],
        (NAME, PARAM) => &["parameter"],
        (NAME, RECORD_FIELD) => &["field"],
        (NAME_REF, DOT_EXPR | RECORD_EXPR_FIELD | RECORD_PAT_FIELD) => &["name", "identifier"],
        (it, LET_STMT | PARAM | RECORD_FIELD | RET_TYPE | REF_TYPE) if TYPES.contains(&it) => &["type"],
        (it, LET_STMT) if PATTERNS.contains(&it) => &["pattern"],
        (it, TUPLE_PAT) if inner && PATTERNS.contains(&it) => &["pattern"],
        (PARAM, PARAM_LIST) if inner => &["parameter"],
        (TYPE_PARAM, GENERIC_PARAM_LIST) if inner => &["parameter"],
        (RECORD_FIELD, RECORD_FIELD_LIST) if inner => &["field"],
        (RECORD_EXPR_FIELD, RECORD_EXPR_FIELD_LIST) if inner => &["field", "name", "identifier"],
        (RECORD_PAT_FIELD, RECORD_PAT_FIELD_LIST) if inner => &["field", "name", "identifier"],
        _ => return None,
    };
    Some(res)
}

/// The same for one token; what comes after it decides as well.
fn token_asked_for(tok: &Tok, next: &str) -> Option<&'static [&'static str]> {
    let closing = matches!(next, ")" | "}" | ">");
    let res: &'static [&'static str] = match (tok.text.as_str(), tok.parent) {
        (",", PARAM_LIST | GENERIC_PARAM_LIST | RECORD_FIELD_LIST | RECORD_PAT_FIELD_LIST)
        | (",", RECORD_EXPR_FIELD_LIST | TUPLE_PAT)
            if !closing =>
        {
            &["comma", "`,`"]
        }
        (":", RECORD_FIELD) => &["colon", "`:`", "type"],
        (":", PARAM) => &["colon", "`:`", "type"],
        ("(", PARAM_LIST) => &["argument", "parameter", "`(`"],
        ("{", ITEM_LIST | ADDRESS_ITEM_LIST | RECORD_FIELD_LIST) => &["{"],
        (";", STRUCT) => &["`;`", "semicolon"],
        ("fun", FUNCTION_DEF) | ("struct", STRUCT) => &["item", "`fun`", "`struct`"],
        ("module", MODULE_DEF) => &["module"],
        ("script", SCRIPT_DEF) => &["script"],
        ("address", ADDRESS_DEF) => &["module", "script", "address"],
        _ => return None,
    };
    Some(res)
}

fn interned(name: &str) -> &'static str {
    static NAMES: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
    let mut names = NAMES.lock().unwrap();
    if let Some(it) = names.iter().find(|it| **it == name) {
        return it;
    }
    names.push(Box::leak(name.to_string().into_boxed_str()));
    names[names.len() - 1]
}

fn c43_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = fuel(src);
    let mut g = Gen { src, fuel, max_depth: 4 };
    let mut kids = Vec::new();
    for _ in 0..g.src.range(1, 4) {
        kids.push(g.top_level());
    }
    let tree = T::N(SOURCE_FILE, kids);
    let (mut toks, mut spans) = (Vec::new(), Vec::new());
    collect(&tree, SOURCE_FILE, 0, 0, &mut toks, &mut spans);
    let next = |i: usize| toks.get(i).map_or("", |it| it.text.as_str());
    // Kinds of missing parts are drawn first: some are much rarer than others.
    let mut all: Vec<(String, usize, usize, &'static [&'static str])> = Vec::new();
    for s in spans.iter().filter(|s| s.end > s.start) {
        if let Some(words) = asked_for(s.kind, s.parent, next(s.end) == ",") {
            all.push((format!("{:?} of {:?}", s.kind, s.parent), s.start, s.end, words));
        }
    }
    for (i, t) in toks.iter().enumerate() {
        if let Some(words) = token_asked_for(t, next(i + 1)) {
            all.push((format!("`{}` of {:?}", t.text, t.parent), i, i + 1, words));
        }
    }
    let mut kinds: Vec<&String> = all.iter().map(|it| &it.0).collect();
    kinds.sort();
    kinds.dedup();
    let Some(kind) = pick(src, &kinds) else {
        ctx.class("nothing to take away");
        return Ok(());
    };
    let of_kind: Vec<_> = all.iter().filter(|it| &it.0 == kind).collect();
    let (what, start, end, words) = pick(src, &of_kind).unwrap();
    let mut tokens: Vec<String> = toks.iter().map(|it| it.text.clone()).collect();
    tokens.drain(*start..*end);
    let (text, ends) = layout_with_ends(src, &tokens);
    let lower = if *start == 0 { 0 } else { ends[start - 1] };
    let upper = tokens.get(*start).map_or(text.len(), |t| ends[*start] - t.len());
    ctx.show(|| format!("no {}: {} (at {}..{})", what, quoted(&text), lower, upper));
    ctx.key(text.as_bytes());
    ctx.class(interned(what));
    ctx.nontrivial(true);

    let parse = parse(&text)?;
    let Some(first) = parse.errors().first() else {
        return Err(format!("no {} at {}..{}: no error is reported", what, lower, upper));
    };
    let at = usize::from(first.range().start());
    if at < lower || at > upper {
        return Err(format!("no {} at {}..{}: the first error, {:?}, is at {}", what, lower, upper, first.to_string(), at));
    }
    let message = first.to_string().to_lowercase();
    if !words.iter().any(|it| message.contains(it)) {
        return Err(format!("no {} at {}..{}: the first error is {:?}", what, lower, upper, first.to_string()));
    }
    Ok(())
}

pub static C43: Prop = Prop {
    id: "C43",
    rule: "a case is a generated program of one to four definitions from which one part or token is missing, of the \
           kinds and at the places that the property names; non-trivial: something is missing (all but the programs \
           without such a part)",
    assumptions: &["a message is judged by whether it mentions what is missing, not by its wording"],
    cases: (60_000, 4_000_000),
    case: c43_case,
    ..PROP
};
