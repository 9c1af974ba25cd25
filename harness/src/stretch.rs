//! Programs in which one construct is repeated or nested very many times.
use parser::SyntaxKind::*;

use crate::tree::{leaf, tok, T};

/// Just under, at and above the sizes at which a fixed-size buffer or counter would end.
const SIZES: &[usize] =
    &[7, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 200, 255, 257, 300, 450, 999, 1025, 4097, 20_000, 66_000];
/// Nesting beyond this is the known finding about deep nesting.
const DEEPEST: usize = 450;
const REPEATED: usize = 23;
const NESTED: usize = 12;

pub fn count() -> u64 {
    ((REPEATED + NESTED) * SIZES.len()) as u64
}

fn ident(kind: parser::SyntaxKind, s: &str) -> T {
    T::N(kind, vec![leaf(IDENT, s)])
}
fn path() -> T {
    T::N(PATH, vec![T::N(PATH_SEGMENT, vec![ident(NAME_REF, "a")])])
}
fn var() -> T {
    T::N(PATH_EXPR, vec![path()])
}
fn ty() -> T {
    T::N(PATH_TYPE, vec![path()])
}
fn pat() -> T {
    T::N(IDENT_PAT, vec![ident(NAME, "x")])
}
fn between(open: &str, items: Vec<T>, sep: &str, trailing: bool, close: &str) -> Vec<T> {
    let mut res = vec![tok(open)];
    let n = items.len();
    for (i, it) in items.into_iter().enumerate() {
        res.push(it);
        if !sep.is_empty() && (i + 1 < n || trailing) {
            res.push(tok(sep));
        }
    }
    res.push(tok(close));
    res
}
fn rep(n: usize, it: T) -> Vec<T> {
    vec![it; n]
}
fn function(params: Vec<T>, ret: Option<T>, stmts: Vec<T>) -> T {
    let mut kids = vec![tok("fun"), ident(NAME, "f"), T::N(PARAM_LIST, between("(", params, ",", false, ")"))];
    if let Some(it) = ret {
        kids.push(T::N(RET_TYPE, vec![tok(":"), it]));
    }
    kids.push(T::N(BLOCK_EXPR, between("{", stmts, "", false, "}")));
    T::N(FUNCTION_DEF, kids)
}
fn items(items: Vec<T>) -> T {
    T::N(ITEM_LIST, between("{", items, "", false, "}"))
}
fn script(list: Vec<T>) -> T {
    T::N(SCRIPT_DEF, vec![tok("script"), items(list)])
}
fn module(list: Vec<T>) -> T {
    T::N(MODULE_DEF, vec![tok("module"), ident(NAME, "M"), items(list)])
}
fn stmt(e: T) -> T {
    T::N(EXPR_STMT, vec![e, tok(";")])
}
fn let_(pattern: T, semi: bool) -> T {
    let mut kids = vec![tok("let"), pattern];
    if semi {
        kids.push(tok(";"));
    }
    T::N(LET_STMT, kids)
}
fn literal(kind: parser::SyntaxKind, s: &str) -> T {
    T::N(LITERAL, vec![leaf(kind, s)])
}
fn body(stmts: Vec<T>) -> T {
    script(vec![function(vec![], None, stmts)])
}
fn struct_(generics: Vec<T>, fields: Option<Vec<T>>) -> T {
    let mut kids = vec![tok("struct"), ident(NAME, "S")];
    if !generics.is_empty() {
        kids.push(T::N(GENERIC_PARAM_LIST, between("<", generics, ",", false, ">")));
    }
    match fields {
        Some(it) => kids.push(T::N(RECORD_FIELD_LIST, between("{", it, ",", false, "}"))),
        None => kids.push(tok(";")),
    }
    T::N(STRUCT, kids)
}
/// `f` applied n times.
fn nest(n: usize, start: T, f: impl Fn(T) -> T) -> T {
    (0..n).fold(start, |it, _| f(it))
}

/// What is stretched, the tree, its tokens and what stands between them.
pub fn program(i: u64) -> (String, T, String) {
    let what = i as usize / SIZES.len();
    let mut n = SIZES[i as usize % SIZES.len()];
    if what >= REPEATED {
        n = n.min(DEEPEST);
    }
    let mut space = " ".to_string();
    let call = |f: T, args: Vec<T>, trailing: bool| {
        T::N(CALL_EXPR, vec![f, T::N(ARG_LIST, between("(", args, ",", trailing, ")"))])
    };
    let small = || vec![module(vec![struct_(vec![], None)]), body(vec![let_(pat(), true), stmt(call(var(), vec![var()], false))])];
    let one = |it: T| vec![it];
    let (name, top) = match what {
        0 => ("modules", rep(n, module(vec![]))),
        1 => ("scripts", rep(n, script(vec![]))),
        2 => {
            let list = T::N(ADDRESS_ITEM_LIST, between("{", rep(n, module(vec![])), "", false, "}"));
            let addr = T::N(ADDRESS_IDENT, vec![leaf(DIEM_ADDRESS, "0x1")]);
            ("modules of an address", one(T::N(ADDRESS_DEF, vec![tok("address"), addr, list])))
        }
        3 => ("structs", one(module(rep(n, struct_(vec![], None))))),
        4 => ("functions", one(module(rep(n, function(vec![], None, vec![]))))),
        5 => ("type parameters", one(module(one(struct_(rep(n, T::N(TYPE_PARAM, vec![ident(NAME, "T")])), None))))),
        6 => {
            let mut list = vec![];
            for k in 0..n {
                if k > 0 {
                    list.push(tok("+"));
                }
                list.push(T::N(TYPE_BOUND, vec![ident(NAME, "copy")]));
            }
            let param = T::N(TYPE_PARAM, vec![ident(NAME, "T"), tok(":"), T::N(TYPE_BOUND_LIST, list)]);
            ("type bounds", one(module(one(struct_(vec![param], None)))))
        }
        7 => {
            let field = T::N(RECORD_FIELD, vec![ident(NAME, "x"), tok(":"), ty()]);
            ("fields", one(module(one(struct_(vec![], Some(rep(n, field)))))))
        }
        8 => {
            let param = T::N(PARAM, vec![ident(NAME, "x"), tok(":"), ty()]);
            ("parameters", one(module(one(function(rep(n, param), None, vec![])))))
        }
        9 => ("statements", one(body(rep(n, stmt(var()))))),
        10 => ("lets", one(body(rep(n, let_(pat(), true))))),
        11 => ("lets without semicolons", one(body(rep(n, let_(pat(), false))))),
        12 => {
            let it = T::N(TUPLE_PAT, between("(", rep(n, pat()), ",", false, ")"));
            ("tuple pattern", one(body(one(let_(it, true)))))
        }
        13 => {
            let list = rep(n, T::N(RECORD_PAT_FIELD, vec![pat()]));
            let list = T::N(RECORD_PAT_FIELD_LIST, between("{", list, ",", false, "}"));
            ("record pattern", one(body(one(let_(T::N(RECORD_PAT, vec![path(), list]), true)))))
        }
        14 => ("arguments", one(body(one(stmt(call(var(), rep(n, var()), false)))))),
        15 => {
            let field = T::N(RECORD_EXPR_FIELD, vec![ident(NAME_REF, "x"), tok(":"), var()]);
            let list = T::N(RECORD_EXPR_FIELD_LIST, between("{", rep(n, field), ",", false, "}"));
            ("record", one(body(one(stmt(T::N(RECORD_EXPR, vec![path(), list]))))))
        }
        16 => ("arguments and a comma", one(body(one(stmt(call(var(), rep(n, literal(TRUE_KW, "true")), true)))))),
        17 => {
            let name = "x".repeat(n);
            let p = T::N(IDENT_PAT, vec![ident(NAME, &name)]);
            ("long identifier", one(body(vec![let_(p, true), stmt(T::N(PATH_EXPR, vec![T::N(PATH, vec![T::N(PATH_SEGMENT, vec![ident(NAME_REF, &name)])])]))])))
        }
        18 => ("long number", one(body(vec![stmt(literal(INTEGER_NUMBER, &"7".repeat(n))), stmt(literal(INTEGER_NUMBER, &format!("0x{}u8", "1".repeat(n))))]))),
        19 => {
            let s = format!("b\"{}\"", "\\\"\u{e9}".repeat(n));
            ("long byte string", one(body(vec![stmt(literal(BYTE_STRING, &s)), stmt(literal(BYTE_STRING, &format!("x\"{}\"", "0".repeat(n))))])))
        }
        20 => {
            space = " \t\n".repeat(n / 3 + 1);
            ("long white space", small())
        }
        21 => {
            space = "//\n".repeat(n);
            ("many comments", small())
        }
        22 => {
            space = format!(" // {}\n", "{\u{4e16};".repeat(n));
            ("long comments", small())
        }
        23 => {
            let p = nest(n, path(), |it| T::N(PATH, vec![it, tok("::"), T::N(PATH_SEGMENT, vec![ident(NAME_REF, "b")])]));
            ("path segments", one(body(one(stmt(T::N(PATH_EXPR, vec![p]))))))
        }
        24 => {
            let t = nest(n, ty(), |it| T::N(REF_TYPE, vec![tok("&mut"), it]));
            let param = T::N(PARAM, vec![ident(NAME, "x"), tok(":"), t]);
            ("mutable references", one(module(one(function(one(param), None, vec![])))))
        }
        25 => {
            let t = nest(n, ty(), |it| T::N(REF_TYPE, vec![tok("&"), it]));
            ("references", one(module(one(function(vec![], Some(t), vec![])))))
        }
        26 => ("parentheses", one(body(one(stmt(nest(n, var(), |it| T::N(PAREN_EXPR, vec![tok("("), it, tok(")")]))))))),
        27 => {
            let inner = T::N(BLOCK_EXPR, vec![tok("{"), tok("}")]);
            ("blocks", one(body(one(stmt(nest(n, inner, |it| {
                T::N(BLOCK_EXPR, vec![tok("{"), stmt(T::N(PAREN_EXPR, vec![tok("("), it, tok(")")])), tok("}")])
            }))))))
        }
        28 => ("negations", one(body(one(stmt(nest(n, var(), |it| T::N(PREFIX_EXPR, vec![tok("!"), it]))))))),
        29 => ("field accesses", one(body(one(stmt(nest(n, var(), |it| T::N(DOT_EXPR, vec![it, tok("."), ident(NAME_REF, "b")]))))))),
        30 => ("calls", one(body(one(stmt(nest(n, var(), |it| call(it, vec![], false))))))),
        31 => ("nested arguments", one(body(one(stmt(nest(n, var(), |it| call(var(), vec![it], false))))))),
        32 => ("operators", one(body(one(stmt(nest(n, var(), |it| T::N(BIN_EXPR, vec![it, tok("-"), var()]))))))),
        33 => {
            let p = nest(n, pat(), |it| T::N(TUPLE_PAT, vec![tok("("), it, tok(","), tok(")")]));
            ("tuple patterns", one(body(one(let_(p, true)))))
        }
        _ => {
            let p = nest(n, pat(), |it| {
                let field = T::N(RECORD_PAT_FIELD, vec![ident(NAME_REF, "x"), tok(":"), it]);
                let list = T::N(RECORD_PAT_FIELD_LIST, vec![tok("{"), field, tok("}")]);
                T::N(RECORD_PAT, vec![path(), list])
            });
            ("record patterns", one(body(one(let_(p, true)))))
        }
    };
    let tree = T::N(SOURCE_FILE, top);
    let text = tree.tokens().join(&space);
    (format!("{} × {}", name, n), tree, text)
}
