//! C01 (no crash), C02 (lossless), C05 (trivia does not matter).
use syntax::syntax_node::SyntaxElement;
use syntax::{Parse, SourceFile, TextRange, TextSize};

use crate::engine::{no_panic, Ctx, Probe, Prop, Res, Tier, PROP};
use crate::gen;
use crate::lex;
use crate::src::Src;
use crate::stretch;
use crate::tree;

pub fn parse(text: &str) -> Result<Parse<SourceFile>, String> {
    no_panic("parse", || SourceFile::parse(text))
}

pub fn quoted(text: &str) -> String {
    if text.len() > 4000 {
        let end = (0..=1000).rev().find(|it| text.is_char_boundary(*it)).unwrap();
        return format!("{:?}… ({} bytes)", &text[..end], text.len());
    }
    format!("{:?}", text)
}

/// Opening brackets in a malformed text: error recovery may lose the closing ones, so that many levels
/// can nest. (Much deeper nesting is the recorded finding.)
pub const MAX_NESTING: usize = 500;

// ---------------------------------------------------------------- C01

/// Long texts: a piece repeated many times.
const REPEAT: &[&str] = &[
    "let x = 1;", "x;", "module M {}", "fun f() {}", "struct S;", "a, ", "a: T, ", "1 + 1;", ";", "}", ")",
    ",", "]", "fun ", "struct ", "let ", "script ", "module ", "address ", "$", "// c\n", "\n", " ", "b\"",
    "x\"\n", "{}", "()", "(,)", "{;}", "a.b;", "f(a);", "f(", "S { a: b };", ": ", ":: ", "< ", "> ", "= ",
    "mut ", "&mut ", "& ", "0x", "@", "true ", "\u{e9}", "\r", "..", "if ", "use ", "let (a, b): &T = b;",
];

/// Contexts with pieces that may be repeated in them without any mistake.
const REPEAT_OK: &[(&str, &str, &[&str])] = &[
    ("", "", &["module M {} ", "script {} ", "address 0x1 {} ", "// c\n", " ", "module 0x1::M { fun f() {} }\n"]),
    ("script { fun f() {", "} }", &[
        "f(a); ", "{}; ", "let x = 1; ", "(a); ", "S { a: b }; ", "-1 + !a; ", "let (a, S { b }): &T = b; ", "a.b(c).d;\n",
    ]),
    ("module M {", "}", &["fun f() {} ", "struct S { a: T } ", "struct S<T: copy>; ", "fun f(a: &mut T): u8 { a } "]),
    ("module M { struct S {", "} }", &["a: T, ", "b: &0x::T, "]),
    ("module M { fun f(", ") {} }", &["a: T, ", "b: &mut T, "]),
    ("script { fun f() { g(", "); } }", &["a, ", "(b), ", "{ c; }, ", "f(1), "]),
    ("address 0x1 {", "}", &["module M {} ", "module M { fun f() {} } "]),
];

fn c01_text(src: &mut Src, ctx: &mut Ctx) -> String {
    if src.chance(1, 16) {
        let well_formed = src.bool();
        let (before, after, pieces) = if well_formed {
            ctx.class("long repetition without mistake");
            *src.pick(REPEAT_OK)
        } else {
            ctx.class("long repetition");
            let (before, after) = *src.pick(gen::CONTEXTS);
            (before, after, REPEAT)
        };
        let pieces = [*src.pick(pieces), if src.bool() { *src.pick(pieces) } else { "" }];
        let n = match src.weighted(&[3, 3, 1, 1]) {
            0 => src.upto(10),
            1 => src.upto(300),
            2 => src.upto(2000),
            _ => src.upto(8000),
        };
        let mut text = before.to_string();
        for _ in 0..n {
            text.push_str(pieces[0]);
            text.push_str(pieces[1]);
        }
        text.push_str(after);
        return if well_formed { text } else { bound(&text) };
    }
    if src.chance(1, 40) {
        ctx.class("long program");
        let mut text = String::new();
        for _ in 0..src.range(5, 40) {
            text.push_str(&gen::program(src, 400).1);
            text.push('\n');
        }
        return text;
    }
    let (text, class) = gen::any_text(src, 60);
    ctx.class(class);
    bound(&text)
}

/// Left-nested chains (`a + b + c`, `a.b.c`) are bounded as well: each link is a level of the tree.
const CHAIN: usize = 1000;

/// Drops the tokens that would exceed the nesting or chain bound.
pub fn bound(text: &str) -> String {
    let mut out = String::with_capacity(text.len());
    let mut opened = 0usize;
    let mut prefix = 0usize;
    let mut links = 0usize;
    for (_, t) in lex::lex(text) {
        match t {
            "{" | "(" if opened >= MAX_NESTING => continue,
            "{" | "(" => opened += 1,
            "-" | "!" | "*" | "&" | "&mut" if prefix >= 64 => continue,
            "-" | "!" | "*" | "&" | "&mut" => prefix += 1,
            ";" | "let" => prefix = 0,
            _ => (),
        }
        match t {
            "+" | "-" | "*" | "/" | "%" | "<" | ">" | "=" | "|" | "^" | "&" | "." | "::" | "(" => {
                if links >= CHAIN {
                    continue;
                }
                links += 1;
            }
            ";" | "let" | "fun" | "struct" | "module" => links = 0,
            _ => (),
        }
        out.push_str(t);
    }
    out
}

fn c01_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = c01_text(src, ctx);
    c01_check(&text, ctx)
}

fn c01_check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| quoted(text));
    ctx.key(text.as_bytes());
    let parse = parse(text)?;
    ctx.nontrivial(!parse.errors().is_empty());
    ctx.class_if(text.len() > 20_000, "over 20 kB");
    ctx.class_if(parse.errors().is_empty(), "no errors");
    // The tree can be walked and dropped as well.
    let n = no_panic("walk", || parse.syntax_node().descendants_with_tokens().count())?;
    if n == 0 {
        return Err("empty tree".into());
    }
    Ok(())
}

/// Texts that made the parser crash, loop or overflow before the repairs, and exhaustive token sequences.
pub const REGRESSIONS: &[&str] = &[
    "",
    " ",
    "// no newline",
    "\u{e9}",
    "\u{1F600}",
    "b\"abc",
    "x\"\u{e9}\u{e9}\u{1F600}\"",
    "script { fun f() { b\"\u{e9}\"; } }",
    "module",
    "module {",
    "address 0x1 {",
    "address 0x1 { { } }",
    "address 0x1 { fun",
    "module M { fun f( {",
    "module M { fun f(,) {} }",
    "module M { struct S { a } }",
    "module M { struct S { , } }",
    "module M { struct S { } , }",
    "module M { struct S<,> {} }",
    "module M { struct S<{}> {} }",
    "module M { struct S { { } } }",
    "script { fun f() { ) } }",
    "script { fun f() { (;) } }",
    "script { fun f() { S { ; } } }",
    "script { fun f() { S { {} } } }",
    "script { fun f() { let S { {} } = 1; } }",
    "script { fun f() { let S { , } = 1; } }",
    "script { fun f() { let (1, a) = 1; } }",
    "script { fun f() { f(;) } }",
    "script { fun f() { a::",
    "script { fun f() { a::{",
    "script { fun f() { a::*",
    "script { fun f() { & ",
    "script { fun f(a: &mut T, b: & mut T) {} }",
    "\r\n",
    "\0",
];

const EXHAUST: &[&str] = &[
    "{", "}", "(", ")", "a", ";", ",", ":", "::", "let", "fun", "module", "script", "struct", "address", "=",
    "<", ">", "&", "&mut", "mut", "0x1", "1", ".", "+", "-", "*", "!", "..", "@", "true", "b\"s\"", "move",
    "return", "if", "use", "[", "/", "|", "&&", "==", "<<", "==>", "#", "$", "\u{e9}", "b\"o", "// c\n",
];

/// Texts of some megabytes, well-formed and malformed ones.
const HUGE: &[(&str, &str, &str)] = &[
    ("", "module 0x1::M { fun f(a: T): u8 { let x = a + 1; g(x) } }\n", ""),
    ("script { fun f() {", "let (a, S { b }): &T = b.c(d) * -1; ", "} }"),
    ("module M {", "struct S<T: copy + drop> { a: &mut T } ", "}"),
    ("module M { struct S {", "b: &0x::T, ", "} }"),
    ("// ", "\u{4e16}x", ""),
    ("module M { fun f() {", "; ", "} }"),
    ("", "module M { ) fun \u{1F600}", ""),
    ("script { fun f() {", "let = 1; f(a b; ", "} }"),
    ("address 0x1 {", "fun f() $ ", "}"),
];

fn huge(i: u64) -> String {
    let (before, piece, after) = HUGE[i as usize];
    format!("{}{}{}", before, piece.repeat((1 << 21) / piece.len()), after)
}

fn c01_fixed_n(tier: Tier) -> u64 {
    let n = EXHAUST.len() as u64;
    let len = tier.pick(2, 3);
    let seqs: u64 = (0..=len).map(|it| n.pow(it)).sum();
    (REGRESSIONS.len() + HUGE.len()) as u64 + stretch::count() + seqs * gen::CONTEXTS.len() as u64
}

/// A construct repeated or nested very often, whole and cut off in the middle.
fn stretched(i: u64, ctx: &mut Ctx, check: fn(&str, &mut Ctx) -> Res) -> Res {
    let text = stretch::program(i).2;
    check(&text, ctx)?;
    let mut half = text.len() / 2;
    while !text.is_char_boundary(half) {
        half += 1;
    }
    check(&text[..half], ctx)
}

fn c01_fixed(i: u64, ctx: &mut Ctx) -> Res {
    if let Some(text) = REGRESSIONS.get(i as usize) {
        return c01_check(text, ctx);
    }
    let i = i - REGRESSIONS.len() as u64;
    if i < HUGE.len() as u64 {
        ctx.class("megabytes");
        return c01_check(&huge(i), ctx);
    }
    let i = i - HUGE.len() as u64;
    if i < stretch::count() {
        ctx.class("stretched construct");
        return stretched(i, ctx, c01_check);
    }
    ctx.class("enumerated sequence");
    let i = i - stretch::count();
    let (before, after) = gen::CONTEXTS[(i % gen::CONTEXTS.len() as u64) as usize];
    let mut i = i / gen::CONTEXTS.len() as u64;
    let n = EXHAUST.len() as u64;
    let mut text = before.to_string();
    let mut block = 1;
    while i >= block {
        i -= block;
        block *= n;
    }
    while block > 1 {
        text.push(' ');
        text.push_str(EXHAUST[(i % n) as usize]);
        i /= n;
        block /= n;
    }
    text.push(' ');
    // Every second one is cut off after the sequence as well.
    c01_check(&text, ctx)?;
    text.push_str(after);
    c01_check(&text, ctx)
}

fn deep_nesting() -> bool {
    let text = "(".repeat(100_000);
    let text = format!("script {{ fun f() {{ {} }} }}", text);
    SourceFile::parse(&text);
    false
}

pub static C01: Prop = Prop {
    id: "C01",
    rule: "a case is a text: all sequences of up to 2 (thorough: 3) tokens in 16 contexts, nine texts of 2 MB, 35 constructs \
           repeated or nested up to 66 000 times (nested: 450), then random token \
           soups, mutated programs, soups in contexts, random characters, long repetitions and long programs; \
           non-trivial: it has a syntax error",
    assumptions: &[
        "malformed texts have at most 500 opening brackets (error recovery may lose closing ones) and operator \
         chains are at most 1000 long (much deeper nesting overflows the stack: recorded finding)",
        "the parser runs on a thread with a 2 MB stack, the default of the threads that the server parses on",
    ],
    cases: (120_000, 6_000_000),
    case: c01_case,
    fixed: Some((c01_fixed_n, c01_fixed)),
    probes: &[Probe { id: "deep-nesting", fails: deep_nesting, crash: true }],
    stack: 2 << 20,
    ..PROP
};

// ---------------------------------------------------------------- C02

fn c02_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = c01_text(src, ctx);
    c02_check(&text, ctx)
}

pub fn check_lossless(text: &str, parse: &Parse<SourceFile>) -> Res {
    let node = parse.syntax_node();
    let whole = TextRange::up_to(TextSize::of(text));
    if node.text_range() != whole {
        return Err(format!("root range {:?}, text {:?}", node.text_range(), whole));
    }
    let mut pos = 0usize;
    let mut bounds = vec![0usize];
    for el in node.descendants_with_tokens() {
        match el {
            SyntaxElement::Token(t) => {
                let range = t.text_range();
                if usize::from(range.start()) != pos {
                    return Err(format!("leaf {:?} at {:?}, expected at {}", t.kind(), range, pos));
                }
                if t.text().is_empty() {
                    return Err(format!("empty leaf {:?} at {}", t.kind(), pos));
                }
                let end = usize::from(range.end());
                if text.get(pos..end) != Some(t.text()) {
                    return Err(format!(
                        "leaf {:?} at {:?} has text {:?}, source has {:?}",
                        t.kind(),
                        range,
                        t.text(),
                        text.get(pos..end)
                    ));
                }
                pos = end;
                bounds.push(end);
            }
            SyntaxElement::Node(n) => {
                if n.parent().is_some() {
                    let edges = [n.first_child_or_token(), n.last_child_or_token()];
                    if let Some(t) = edges.iter().flatten().filter_map(|it| it.as_token()).find(|it| lex::is_trivia(it.kind())) {
                        return Err(format!("node {:?} has {:?} at its edge", n, t));
                    }
                }
                if let Some(part) = text.get(std::ops::Range::<usize>::from(n.text_range())) {
                    // Quadratic in the nesting: not for long texts.
                    if text.len() < 2000 && n.text() != part {
                        return Err(format!("node {:?}: text differs from the source", n));
                    }
                } else {
                    return Err(format!("node {:?} not on character boundaries", n));
                }
            }
        }
    }
    if pos != text.len() {
        return Err(format!("the leaves end at {}, the text at {}", pos, text.len()));
    }
    if node.text().to_string() != text {
        return Err("the text of the tree differs from the source".into());
    }
    for e in parse.errors() {
        let (a, b) = (usize::from(e.range().start()), usize::from(e.range().end()));
        if a > b || [a, b].iter().any(|it| bounds.binary_search(it).is_err()) {
            return Err(format!("error {:?} at {:?}, text length {}", e.to_string(), e.range(), text.len()));
        }
    }
    Ok(())
}

fn c02_check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| quoted(text));
    ctx.key(text.as_bytes());
    let parse = parse(text)?;
    let tokens = lex::lex(text);
    ctx.nontrivial(tokens.iter().any(|it| lex::is_trivia(it.0)) && tokens.len() > 3);
    ctx.class_if(!text.is_ascii(), "non-ASCII");
    ctx.class_if(!parse.errors().is_empty(), "with errors");
    ctx.count("errors", parse.errors().len() as u64);
    no_panic("walk", || check_lossless(text, &parse))?
}

fn c02_fixed(i: u64, ctx: &mut Ctx) -> Res {
    match REGRESSIONS.get(i as usize) {
        Some(text) => c02_check(text, ctx),
        None => stretched(i - REGRESSIONS.len() as u64, ctx, c02_check),
    }
}

pub static C02: Prop = Prop {
    id: "C02",
    rule: "a case is a text as for parsing (soups, mutated programs, random characters, long repetitions, \
           programs); non-trivial: at least four tokens, one of them white space or a comment",
    assumptions: &["nesting bounded as for C01"],
    cases: (90_000, 6_000_000),
    case: c02_case,
    fixed: Some((|_| REGRESSIONS.len() as u64 + stretch::count(), c02_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C05

fn c05_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (text, class) = gen::any_text(src, 40);
    ctx.class(class);
    let text = bound(&text);
    let tokens: Vec<String> =
        lex::lex(&text).iter().filter(|it| !lex::is_trivia(it.0)).map(|it| it.1.to_string()).collect();
    let other = relayout(src, &tokens);
    c05_check(&text, &other, ctx)
}

fn relayout(src: &mut Src, tokens: &[String]) -> String {
    let mode = src.weighted(&[4, 1, 1]);
    let mut s = String::new();
    // Now and then one gap is very wide.
    let wide = if src.chance(1, 150) { Some(src.index(tokens.len() + 1)) } else { None };
    for (i, t) in tokens.iter().enumerate() {
        let first = i == 0;
        let before = match mode {
            _ if wide == Some(i) => {
                let n = *src.pick(&[20usize, 300, 2000, 9000, 70_000]);
                let piece = *src.pick(&["\n", " ", "// c\n", "//\n\t", "\r\n", "// \u{4e16} {\n"]);
                format!("\n{}", piece.repeat(n / piece.len() + 1))
            }
            0 => {
                let must = !first && !lex::can_touch(&tokens[i - 1], t);
                gen::trivia(src, must)
            }
            // As dense as can be.
            1 if first || lex::can_touch(&tokens[i - 1], t) => String::new(),
            1 => "\n".into(),
            // One token per line, each after a comment.
            _ => "// c\n".into(),
        };
        // Nothing but a line end separates an unclosed string from what follows.
        let open = !first && is_open_string(&tokens[i - 1]);
        if open && !before.starts_with('\n') && !(t == "\r") {
            s.push('\n');
        }
        if !first && tokens[i - 1] == "/" && before.starts_with('/') {
            s.push(' ');
        }
        if !(open && t == "\r") {
            s.push_str(&before);
        }
        s.push_str(t);
        if t == "\r" && open {
            s.push('\n');
        }
    }
    if src.bool() {
        if tokens.last().map_or(false, |it| is_open_string(it)) {
            s.push('\n');
        }
        s.push_str(&gen::trivia(src, true));
    }
    s
}

fn is_open_string(t: &str) -> bool {
    (t.starts_with("b\"") || t.starts_with("x\"")) && lex::lex(t)[0].0 == parser::SyntaxKind::ERROR
}

fn c05_check(text: &str, other: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| format!("{}\n{}", quoted(text), quoted(other)));
    ctx.key(text.as_bytes());
    ctx.key(other.as_bytes());
    let significant =
        |text| lex::lex(text).into_iter().filter(|it| !lex::is_trivia(it.0)).collect::<Vec<_>>();
    let (a, b) = (significant(text), significant(other));
    if a != b || lex::left_open(text) || lex::left_open(other) {
        // The new layout changed a token: not a case.
        ctx.class("discarded");
        return Ok(());
    }
    ctx.nontrivial(text != other && a.len() > 2);
    let (p, q) = (parse(text)?, parse(other)?);
    let (s, t) = (tree::of_node(&p.syntax_node()), tree::of_node(&q.syntax_node()));
    if let Some(d) = s.diff(&t) {
        return Err(format!("trees differ: {}", d));
    }
    let messages = |p: &Parse<SourceFile>| p.errors().iter().map(|it| it.to_string()).collect::<Vec<_>>();
    let (e, f) = (messages(&p), messages(&q));
    if e != f {
        return Err(format!("errors differ: {:?} and {:?}", e, f));
    }
    // And they are about the same tokens.
    let (a, b) = (places(text, &p), places(other, &q));
    if a != b {
        return Err(format!("the errors {:?} come after {:?} and {:?} tokens", e, a, b));
    }
    ctx.class_if(!e.is_empty(), "with errors");
    ctx.class_if(other.contains("//"), "with comments");
    Ok(())
}

/// For every error, the number of significant tokens before it.
fn places(text: &str, parse: &Parse<SourceFile>) -> Vec<(usize, usize)> {
    let mut pos = 0;
    let mut ends = Vec::new();
    for (kind, t) in lex::lex(text) {
        pos += t.len();
        if !lex::is_trivia(kind) {
            ends.push(pos);
        }
    }
    let before = |at: TextSize| ends.partition_point(|it| *it <= usize::from(at));
    parse.errors().iter().map(|it| (before(it.range().start()), before(it.range().end()))).collect()
}

const RELAID: &[(&str, &str)] = &[
    ("module 0x1::M {}", "module 0x1 ::M {}"),
    ("module 0x1::M {}", "module 0x1// c\n::\n M {}"),
    ("script { fun f() { S{a:1}; } }", "script { fun f() { S { a : 1 }; } }"),
    ("script { fun f() { let S{a:b} = 1; } }", "script { fun f() { let S {a :b} = 1; } }"),
    ("script { fun f() { a::b; } }", "script { fun f() { a :: b; } }"),
    ("script { fun f() { a::{}; } }", "script { fun f() { a:: {}; } }"),
    ("script{fun f(){x*y;}}", " script // c\n { fun f ( ) { x * y ; } } // end"),
    ("$ module M{}", "\n\n$// c\nmodule M{}"),
];

/// Programs that need looking ahead, or seem to.
const AHEAD: &[&str] = &[
    "module 0x1 :: M { fun f ( a : & mut T < u8 > ) : u8 { a } struct S < T : copy + drop > { a : T , } }",
    "script { fun f ( ) { let S { a : b , c } = d . e ( S { a : 1 , b } ) ; let ( a , b ) : & T = c :: d ( ) ; } }",
    "script { fun f ( ) { a :: b { c : 1 } ; { a } ; ( a ) ; - ! a * - b ; f ( & mut a ) ; b\"s\" ; @ 0x1 ; let mut a ; } }",
    "address 0x1 { module M { } } module M { struct S ; fun f ( ) { ; } $ } } script { fun f ( a b ) { let = 1 ; a b } }",
    "script { fun f ( ) { a :: { } ; a : : b ; a & & b ; a = = b ; a < = b ; a > > b ; a | | b ; let x let y } }",
];
const WIDE: &[(&str, usize)] = &[
    (" ", 257), (" ", 4097), (" ", 66_000), ("\n", 1025), ("// c\n", 60), ("// c\n", 1300), ("//\n", 22_000), ("//\n ", 300),
    ("\r\n", 2049), ("\t// {\u{4e16}\u{1F600}\n", 400),
];

fn c05_fixed_n() -> u64 {
    (RELAID.len() + AHEAD.len() * WIDE.len()) as u64
}

/// Two given layouts, or a program with single spaces and with the same wide gap everywhere.
fn c05_fixed(i: u64, ctx: &mut Ctx) -> Res {
    if let Some((a, b)) = RELAID.get(i as usize) {
        return c05_check(a, b, ctx);
    }
    let i = i as usize - RELAID.len();
    let (text, (piece, n)) = (AHEAD[i / WIDE.len()], WIDE[i % WIDE.len()]);
    ctx.class("very wide gaps");
    c05_check(text, &text.replace(' ', &format!("\n{}", piece.repeat(n))), ctx)
}

pub static C05: Prop = Prop {
    id: "C05",
    rule: "a case is a text (soups, mutated programs, programs, random characters) and a second layout of its \
           tokens (random trivia, dense, one per line); non-trivial: at least three significant tokens and the \
           layouts differ",
    assumptions: &["which tokens may touch is decided by the reference lexer of C03; nesting as for C01"],
    cases: (120_000, 5_000_000),
    case: c05_case,
    fixed: Some((|_| c05_fixed_n(), c05_fixed)),
    ..PROP
};
