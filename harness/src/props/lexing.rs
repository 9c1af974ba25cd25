//! C03: the leaves of the tree are the tokens of the lexical grammar.
use parser::SyntaxKind::*;
use syntax::syntax_node::SyntaxElement;

use super::parsing::{bound, parse, quoted};
use crate::engine::{Ctx, Prop, Res, Tier, PROP};
use crate::gen;
use crate::lex;
use crate::src::Src;

const PIECES: &[&str] = &[
    "0", "1", "x", "b", "\"", "\\", "u8", "u64", "u128", "u", "8", "&", "mut", "&mut", "=", ">", "<", ":", ".",
    "/", "//", "\n", " ", "\t", "\r", "\r\n", "!", "|", "a", "F", "f", "_", "0x", "let", "fun", "struct",
    "script", "module", "const", "use", "as", "return", "true", "false", "move", "while", "if", "else",
    "break", "continue", "address", "(", ")", "{", "}", "[", "]", ",", ";", "+", "-", "*", "%", "^", "#",
    "@", "b\"", "x\"", "\u{e9}", "\u{4e16}", "\u{1F600}", "$", "?", "~", "`", "'", "\0", "\u{a0}", "\u{b}",
    "\u{c}", "\u{feff}", "\u{2028}", "\u{660}", "G", "public", "spec", "loop", "copy", "9", "99999999999999999999",
    "\u{85}", "\u{b2}", "\u{2019}", "\u{3000}",
];

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = match src.weighted(&[6, 2, 2]) {
        0 => {
            ctx.class("pieces without separators");
            let mut s = String::new();
            let n = src.range(1, 24);
            for _ in 0..n {
                s.push_str(*src.pick(PIECES));
            }
            s
        }
        1 => {
            ctx.class("random characters");
            gen::unicode(src, 12, 100)
        }
        _ => {
            let (text, class) = gen::any_text(src, 30);
            ctx.class(class);
            text
        }
    };
    check(&bound(&text), ctx)
}

fn check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| quoted(text));
    ctx.key(text.as_bytes());
    let expected = lex::lex(text);
    if lex::left_open(text) {
        ctx.class("not judged");
        return Ok(());
    }
    ctx.nontrivial(expected.len() > 1);
    let parse = parse(text)?;
    let got: Vec<_> = parse
        .syntax_node()
        .descendants_with_tokens()
        .filter_map(|it| match it {
            SyntaxElement::Token(t) => Some((t.kind(), t.text().to_string())),
            _ => None,
        })
        .collect();
    for (i, (kind, s)) in expected.iter().enumerate() {
        let (k, t) = match got.get(i) {
            Some((k, t)) => (*k, t.as_str()),
            None => return Err(format!("token {} ({:?} {:?}) is missing", i, kind, s)),
        };
        // The parser renames a hexadecimal number that stands for an address.
        let renamed = k == DIEM_ADDRESS && *kind == INTEGER_NUMBER && s.starts_with("0x");
        if t != *s || (k != *kind && !renamed) {
            return Err(format!("token {}: expected {:?} {:?}, got {:?} {:?}", i, kind, s, k, t));
        }
    }
    if got.len() != expected.len() {
        return Err(format!("{} tokens, expected {}", got.len(), expected.len()));
    }
    ctx.class_if(expected.iter().any(|it| it.0 == ERROR), "with error tokens");
    ctx.class_if(expected.iter().any(|it| it.0 == BYTE_STRING), "with byte strings");
    ctx.class_if(expected.iter().any(|it| it.0 == COMMENT), "with comments");
    ctx.class_if(expected.iter().any(|it| it.0 == INTEGER_NUMBER), "with numbers");
    Ok(())
}

/// All pairs and triples of pieces.
fn fixed_n(_: Tier) -> u64 {
    let n = PIECES.len() as u64;
    n * n + n * n * n
}

fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    let n = PIECES.len() as u64;
    let mut text = String::new();
    let (mut i, len) = if i < n * n { (i, 2) } else { (i - n * n, 3) };
    for _ in 0..len {
        text.push_str(PIECES[(i % n) as usize]);
        i /= n;
    }
    ctx.class("enumerated");
    check(&text, ctx)
}

pub static C03: Prop = Prop {
    id: "C03",
    rule: "a case is a text: all pairs and triples of 96 token pieces, then random concatenations of \
           pieces, random characters and program texts; non-trivial: it has at least two tokens",
    assumptions: &["the reference lexer states the lexical grammar"],
    cases: (1_500_000, 30_000_000),
    case,
    fixed: Some((fixed_n, fixed)),
    ..PROP
};
