//! A reference lexer, written from the lexical grammar and not from the code under test.
use parser::SyntaxKind::{self, *};

pub const KEYWORDS: &[(&str, SyntaxKind)] = &[
    ("struct", STRUCT_KW),
    ("script", SCRIPT_KW),
    ("module", MODULE_KW),
    ("const", CONST_KW),
    ("use", USE_KW),
    ("as", AS_KW),
    ("let", LET_KW),
    ("mut", MUT_KW),
    ("return", RETURN_KW),
    ("fun", FUN_KW),
    ("true", TRUE_KW),
    ("false", FALSE_KW),
    ("move", MOVE_KW),
    ("while", WHILE_KW),
    ("if", IF_KW),
    ("else", ELSE_KW),
    ("break", BREAK_KW),
    ("continue", CONTINUE_KW),
    ("address", ADDRESS_KW),
];

pub const PUNCT: &[(&str, SyntaxKind)] = &[
    ("<==>", LT_EQ_EQ_GT),
    ("==>", EQ_EQ_GT),
    ("&&", AMP_AMP),
    ("||", PIPE_PIPE),
    ("==", EQ_EQ),
    ("!=", BANG_EQ),
    ("<=", LT_EQ),
    ("<<", LT_LT),
    (">=", GT_EQ),
    (">>", GT_GT),
    ("::", COLON_COLON),
    ("..", DOTDOT),
    ("&", AMP),
    ("|", PIPE),
    ("=", EQ),
    ("!", BANG),
    ("<", LT),
    (">", GT),
    (":", COLON),
    (".", DOT),
    ("%", MOD),
    ("(", L_PAREN),
    (")", R_PAREN),
    ("[", L_BRACK),
    ("]", R_BRACK),
    ("*", STAR),
    ("+", PLUS),
    (",", COMMA),
    ("-", MINUS),
    ("/", SLASH),
    (";", SEMICOLON),
    ("^", CARET),
    ("{", L_BRACE),
    ("}", R_BRACE),
    ("#", NUMSIGN),
    ("@", ATSIGN),
];

fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

fn run(text: &str, f: impl Fn(char) -> bool) -> usize {
    text.find(|c| !f(c)).unwrap_or(text.len())
}

/// The length of the first token and its kind.
fn first(text: &str) -> (SyntaxKind, usize) {
    let c = text.chars().next().unwrap();
    if matches!(c, ' ' | '\n' | '\t') {
        return (WHITESPACE, run(text, |c| matches!(c, ' ' | '\n' | '\t')));
    }
    if text.starts_with("//") {
        return (COMMENT, text.find('\n').map_or(text.len(), |it| it + 1));
    }
    if c.is_ascii_digit() {
        let hex = if text.starts_with("0x") { run(&text[2..], |c| c.is_ascii_hexdigit()) } else { 0 };
        if text.starts_with("0x") && hex == 0 {
            return (INTEGER_NUMBER, 1);
        }
        let digits = if hex > 0 { 2 + hex } else { run(text, |c| c.is_ascii_digit()) };
        let suffix = ["u8", "u64", "u128"].iter().find(|it| text[digits..].starts_with(**it));
        return (INTEGER_NUMBER, digits + suffix.map_or(0, |it| it.len()));
    }
    if text.starts_with("x\"") || text.starts_with("b\"") {
        let mut end = text.find('\n').unwrap_or(text.len());
        if end < text.len() && text[..end].ends_with('\r') {
            end -= 1;
        }
        let mut escaped = false;
        for (i, c) in text[..end].char_indices().skip(2) {
            match c {
                _ if escaped => escaped = false,
                '\\' => escaped = true,
                '"' => return (BYTE_STRING, i + 1),
                _ => (),
            }
        }
        return (ERROR, end);
    }
    if is_word(c) {
        let len = run(text, is_word);
        let kw = KEYWORDS.iter().find(|it| it.0 == &text[..len]);
        return (kw.map_or(IDENT, |it| it.1), len);
    }
    if c == '&' && run(&text[1..], is_word) == 3 && text[1..].starts_with("mut") {
        return (AMP_MUT, 4);
    }
    match PUNCT.iter().filter(|it| text.starts_with(it.0)).max_by_key(|it| it.0.len()) {
        Some((s, kind)) => (*kind, s.len()),
        None => (ERROR, c.len_utf8()),
    }
}

pub fn lex(mut text: &str) -> Vec<(SyntaxKind, &str)> {
    let mut res = Vec::new();
    while !text.is_empty() {
        let (kind, len) = first(text);
        res.push((kind, &text[..len]));
        text = &text[len..];
    }
    res
}

pub fn is_trivia(kind: SyntaxKind) -> bool {
    matches!(kind, WHITESPACE | COMMENT)
}

/// Whether two tokens stay two tokens when nothing is put between them.
pub fn can_touch(a: &str, b: &str) -> bool {
    let joined = format!("{}{}", a, b);
    let tokens = lex(&joined);
    tokens.first().map_or(false, |it| it.1 == a)
}

/// Whether `text` has a hexadecimal number with a suffix but no digits: how it splits into tokens is left open.
pub fn left_open(text: &str) -> bool {
    lex(text).windows(2).any(|w| w[0].1 == "0" && w[1].1.starts_with("xu"))
}
