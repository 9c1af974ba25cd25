//! C39: the generator of the syntax-tree code.
use std::collections::BTreeSet;
use std::io::Write;
use std::process::{Command, Stdio};
use std::str::FromStr;

use proc_macro2::{TokenStream, TokenTree};

use crate::engine::{Ctx, Prop, Res, PROP};
use crate::src::Src;

/// The right side of a rule.
#[derive(Clone, Debug)]
enum R {
    Tok(usize),
    Node(usize),
    Label(&'static str, Box<R>),
    Opt(Box<R>),
    Star(usize),
    /// Separated, with an optional separator at the end.
    List(usize, usize),
    Seq(Vec<R>),
    Alt(Vec<R>),
}

/// Tokens, what they are called, and how the macro `T` takes them; without a name: no accessor.
const TOKENS: &[(&str, &str, &str)] = &[
    (",", "comma", ","),
    (";", "semicolon", ";"),
    ("{", "l_brace", "'{'"),
    ("}", "r_brace", "'}'"),
    ("(", "l_paren", "'('"),
    (")", "r_paren", "')'"),
    ("[", "l_brack", "'['"),
    ("]", "r_brack", "']'"),
    (":", "colon", ":"),
    ("::", "colon_colon", "::"),
    ("+", "plus", "+"),
    ("%", "mod", "%"),
    ("#", "numsign", "#"),
    ("@", "atsign", "@"),
    ("..", "dotdot", ".."),
    ("&&", "amp_amp", "&&"),
    ("&mut", "amp_mut", "&mut"),
    ("|", "pipe", "|"),
    ("||", "pipe_pipe", "||"),
    ("=", "eq", "="),
    ("==>", "eq_eq_gt", "==>"),
    ("<", "lt", "<"),
    ("<==>", "lt_eq_eq_gt", "<==>"),
    ("-", "minus", "-"),
    ("*", "star", "*"),
    ("/", "slash", "/"),
    (".", "dot", "."),
    ("&", "amp", "&"),
    ("^", "caret", "^"),
    ("!", "bang", "!"),
    ("!=", "bang_eq", "!="),
    ("==", "eq_eq", "=="),
    (">", "gt", ">"),
    (">>", "gt_gt", ">>"),
    (">=", "gt_eq", ">="),
    ("<<", "lt_lt", "<<"),
    ("<=", "lt_eq", "<="),
    ("_", "wildcard", "_"),
    ("ident", "ident", "ident"),
    ("fun", "fun", "fun"),
    ("mut", "mut", "mut"),
    ("while", "while", "while"),
    ("address", "address", "address"),
    ("has_it", "has_it", "has_it"),
    ("integer_number", "", ""),
    ("byte_string", "", ""),
    ("hex_string", "", ""),
];
const PIECES: &[&str] = &["Foo", "Bar", "Baz", "Type", "X", "Unit", "Fun", "Path", "Expr", "Pat", "Def", "Names"];
const LABELS: &[&str] = &["lhs", "rhs", "type", "body", "left_side", "value", "index", "first"];

fn name(src: &mut Src, taken: &[String]) -> String {
    let n = src.range(1, 3);
    let mut name: String = (0..n).map(|_| *src.pick(PIECES)).collect();
    while taken.contains(&name) || name == "Stmt" {
        name += ["Foo", "Bar", "Baz", "X"][taken.len() % 4];
    }
    name
}

/// `FooBar` as `foo_bar`.
fn snake(name: &str) -> String {
    let mut res = String::new();
    for c in name.chars() {
        if c.is_ascii_uppercase() && !res.is_empty() {
            res.push('_');
        }
        res.push(c.to_ascii_lowercase());
    }
    res
}

fn element(src: &mut Src, structs: &[usize], all: &[usize], depth: usize) -> R {
    match src.below(if depth > 0 { 13 } else { 10 }) {
        0..=2 => R::Tok(src.index(TOKENS.len())),
        3 | 4 => R::Node(*src.pick(all)),
        5 => {
            let inner = match src.below(5) {
                0 | 1 => R::Node(*src.pick(all)),
                2 => R::Star(*src.pick(all)),
                3 => R::Opt(Box::new(R::Node(*src.pick(all)))),
                _ => R::List(*src.pick(all), 0),
            };
            R::Label(src.pick(LABELS), Box::new(inner))
        }
        6 => R::Opt(Box::new(R::Tok(src.index(TOKENS.len())))),
        7 => R::Opt(Box::new(R::Node(*src.pick(all)))),
        8 => R::Star(*src.pick(all)),
        9 => R::List(*src.pick(all), *src.pick(&[0, 0, 0, 1, 17, 10])),
        10 => R::Opt(Box::new(sequence(src, structs, all, depth - 1))),
        11 => R::Alt((0..src.range(2, 3)).map(|_| sequence(src, structs, all, depth - 1)).collect()),
        _ => sequence(src, structs, all, depth - 1),
    }
}

fn sequence(src: &mut Src, structs: &[usize], all: &[usize], depth: usize) -> R {
    let n = src.range(1, 4);
    let mut items: Vec<R> = (0..n).map(|_| element(src, structs, all, depth)).collect();
    if items.len() == 1 {
        return items.pop().unwrap();
    }
    R::Seq(items)
}

fn write(rule: &R, names: &[String], out: &mut String) {
    match rule {
        R::Tok(t) => out.push_str(&format!("'{}'", TOKENS[*t].0)),
        R::Node(n) => out.push_str(&names[*n]),
        R::Label(label, inner) => {
            out.push_str(label);
            out.push(':');
            write(inner, names, out);
        }
        R::Opt(inner) => {
            out.push('(');
            write(inner, names, out);
            out.push_str(")?");
        }
        R::Star(n) => out.push_str(&format!("{}*", names[*n])),
        R::List(n, sep) => out.push_str(&format!("({0} ('{1}' {0})* '{1}'?)", names[*n], TOKENS[*sep].0)),
        R::Seq(items) => {
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                let group = matches!(item, R::Seq(_) | R::Alt(_));
                if group {
                    out.push('(');
                }
                write(item, names, out);
                if group {
                    out.push(')');
                }
            }
        }
        R::Alt(items) => {
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push_str(" | ");
                }
                let group = matches!(item, R::Alt(_));
                if group {
                    out.push('(');
                }
                write(item, names, out);
                if group {
                    out.push(')');
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Field {
    Token(usize),
    Child { name: String, ty: usize, many: bool, labelled: bool },
}

fn fields(rule: &R, label: Option<&str>, names: &[String], out: &mut Vec<Field>) {
    let mut add = |ty: usize, many: bool| {
        let own = if many { format!("{}s", snake(&names[ty])) } else { snake(&names[ty]) };
        out.push(Field::Child { name: label.map_or(own, |it| it.to_string()), ty, many, labelled: label.is_some() });
    };
    match rule {
        R::Tok(t) => out.push(Field::Token(*t)),
        R::Node(n) => add(*n, false),
        R::Star(n) | R::List(n, _) => add(*n, true),
        R::Label(label, inner) => fields(inner, Some(label), names, out),
        R::Opt(inner) => fields(inner, label, names, out),
        R::Seq(items) | R::Alt(items) => items.iter().for_each(|it| fields(it, label, names, out)),
    }
}

fn flat(text: &str) -> Result<Vec<String>, String> {
    fn walk(stream: TokenStream, out: &mut Vec<String>) {
        for tree in stream {
            match tree {
                TokenTree::Group(group) => {
                    let (a, b) = match group.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push(a.to_string());
                    walk(group.stream(), out);
                    if b != ")" || out.last().map_or(true, |it| it != ",") {
                        out.push(b.to_string());
                    } else {
                        out.pop();
                        out.push(b.to_string());
                    }
                }
                TokenTree::Punct(punct) => out.push(punct.as_char().to_string()),
                other => out.push(other.to_string()),
            }
        }
    }
    let stream = TokenStream::from_str(text).map_err(|e| format!("the generated code is not even a list of tokens: {}\n{}", e, text))?;
    let mut out = Vec::new();
    walk(stream, &mut out);
    Ok(out)
}

/// The items of a file, in any order.
fn items(text: &str) -> Result<Vec<String>, String> {
    let mut res = Vec::new();
    let mut depth = 0;
    let mut item: Vec<String> = Vec::new();
    for token in flat(text)? {
        match &token[..] {
            "{" | "(" | "[" => depth += 1,
            "}" | ")" | "]" => depth -= 1,
            _ => (),
        }
        let end = depth == 0 && (token == ";" || token == "}");
        item.push(token);
        if end {
            res.push(item.join(" "));
            item.clear();
        }
    }
    if !item.is_empty() {
        res.push(item.join(" "));
    }
    res.sort();
    Ok(res)
}

/// Runs the generator, with the real rustfmt or with one that leaves the code as it is.
fn generate(what: &str, input: &str, format: bool) -> Result<String, String> {
    let exe = match std::env::var_os("GENERATE_AST") {
        Some(it) => it.into(),
        None => std::env::current_exe().unwrap().with_file_name("generate_ast"),
    };
    let mut cmd = Command::new(exe);
    if !format {
        let path = std::env::var("PATH").unwrap_or_default();
        cmd.env("PATH", format!("{}/stub:{}", env!("CARGO_MANIFEST_DIR"), path));
    }
    cmd.arg(what).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut child = cmd.spawn().map_err(|e| e.to_string())?;
    child.stdin.take().unwrap().write_all(input.as_bytes()).map_err(|e| e.to_string())?;
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("the generator ends with {:?}: {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    String::from_utf8(out.stdout).map_err(|e| e.to_string())
}

fn same(got: &[String], want: &[String]) -> Res {
    for item in want {
        let n = |list: &[String]| list.iter().filter(|it| *it == item).count();
        if n(got) != n(want) {
            let like = got.iter().filter(|it| !want.contains(it)).take(3).cloned().collect::<Vec<_>>().join("\n    ");
            return Err(format!("{} times instead of {}:\n    {}\nnot expected:\n    {}", n(got), n(want), item, like));
        }
    }
    match got.iter().find(|it| !want.contains(it)) {
        Some(item) => Err(format!("not expected:\n    {}", item)),
        None => Ok(()),
    }
}

fn grammar(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 8);
    let mut names: Vec<String> = Vec::new();
    for _ in 0..n {
        let name = name(src, &names);
        names.push(name);
    }
    let all: Vec<usize> = (0..n).collect();
    // At most half of them are alternatives of nodes.
    let is_enum: Vec<bool> = (0..n).map(|i| i % 2 == 1 && n > 3 && src.bool()).collect();
    let structs: Vec<usize> = (0..n).filter(|&i| !is_enum[i]).collect();
    let mut rules = Vec::new();
    for i in 0..n {
        if is_enum[i] {
            let mut some = structs.clone();
            src.shuffle(&mut some);
            some.truncate(src.range(1, structs.len()));
            let mut alternatives: Vec<R> = some.into_iter().map(R::Node).collect();
            if alternatives.len() == 1 || src.chance(1, 4) {
                let at = src.upto(alternatives.len());
                alternatives.insert(at, R::Tok(1));
            }
            rules.push(R::Alt(alternatives));
        } else if src.chance(1, 6) {
            // Tokens or sequences to choose from.
            let count = src.range(2, 4);
            let mut alternatives: Vec<R> = (0..count).map(|_| sequence(src, &structs, &all, 1)).collect();
            if alternatives.iter().all(|it| matches!(it, R::Node(_) | R::Tok(1))) {
                alternatives.push(R::Tok(0));
            }
            rules.push(R::Alt(alternatives));
        } else {
            let mut rule = sequence(src, &structs, &all, 2);
            // A list of alternatives alone would be an enumeration.
            if let R::Alt(_) = rule {
                rule = R::Seq(vec![R::Tok(0), rule]);
            }
            rules.push(rule);
        }
    }
    let mut text = String::new();
    for i in 0..n {
        text.push_str(&format!("{} =\n  ", names[i]));
        write(&rules[i], &names, &mut text);
        text.push_str("\n\n");
    }
    ctx.show(|| text.clone());
    ctx.key(text.as_bytes());

    let enums: Vec<(usize, Vec<usize>)> = (0..n)
        .filter(|&i| is_enum[i])
        .map(|i| match &rules[i] {
            R::Alt(them) => (i, them.iter().filter_map(|it| if let R::Node(n) = it { Some(*n) } else { None }).collect()),
            _ => unreachable!(),
        })
        .collect();
    let mut want = String::from(
        "use crate::syntax_node::{SyntaxNode, SyntaxToken};
         use crate::SyntaxKind::{self, *};
         use crate::ast::{self, AstNode, AstChildren, support};
         use parser::T;",
    );
    let mut accessors = 0;
    for &i in &structs {
        let mut list: Vec<Field> = Vec::new();
        fields(&rules[i], None, &names, &mut list);
        list.retain(|it| if let Field::Token(t) = it { !TOKENS[*t].1.is_empty() } else { true });
        let mut once: Vec<Field> = Vec::new();
        for field in list {
            let seen = once.iter().any(|it| match (it, &field) {
                (Field::Child { name, ty, many, .. }, Field::Child { name: n, ty: t, many: m, .. }) => (name, ty, many) == (n, t, m),
                (a, b) => a == b,
            });
            if !seen {
                once.push(field);
            }
        }
        // All the variants of an enumeration, to choose from, are that enumeration.
        let covered = |variants: &[usize]| -> Vec<usize> {
            let of = |it: &Field| matches!(it, Field::Child { ty, .. } if variants.contains(ty));
            let them: Vec<usize> = (0..once.len()).filter(|&i| of(&once[i])).collect();
            if them.len() < variants.len() { Vec::new() } else { them }
        };
        let all: Vec<(usize, Vec<usize>, usize)> = enums
            .iter()
            .map(|(e, variants)| (*e, covered(variants), variants.len()))
            .filter(|it| !it.1.is_empty())
            .collect();
        if let [(e, them, n)] = &all[..] {
            let types: BTreeSet<usize> = them
                .iter()
                .filter_map(|&i| match &once[i] {
                    Field::Child { ty, many: false, labelled: false, .. } => Some(*ty),
                    _ => None,
                })
                .collect();
            if types.len() != *n || them.len() != *n {
                ctx.class("not judged");
                return Ok(());
            }
            ctx.class("an enumeration written out");
            them.iter().rev().for_each(|&i| {
                once.remove(i);
            });
            once.push(Field::Child { name: snake(&names[*e]), ty: *e, many: false, labelled: true });
        } else if !all.is_empty() {
            // Several of them: which one is taken is not specified.
            ctx.class("not judged");
            return Ok(());
        }
        // Two names for single children of one type, and one name for two things, are out of scope.
        let mut methods = BTreeSet::new();
        let mut single = BTreeSet::new();
        let mut body = String::new();
        for field in &once {
            let (method, code) = match field {
                Field::Token(t) => {
                    let method = format!("{}_token", TOKENS[*t].1);
                    let code = format!(
                        "pub fn {}(&self) -> Option<SyntaxToken> {{ support::token(&self.syntax, T![{}]) }}",
                        method, TOKENS[*t].2
                    );
                    (method, code)
                }
                Field::Child { name, ty, many, .. } => {
                    let method = if name == "type" { "ty".to_string() } else { name.clone() };
                    let (holder, function) = if *many { ("AstChildren", "children") } else { ("Option", "child") };
                    if !single.insert((*ty, *many)) {
                        ctx.class("not judged");
                        return Ok(());
                    }
                    let code = format!(
                        "pub fn {}(&self) -> {}<{}> {{ support::{}(&self.syntax) }}",
                        method, holder, names[*ty], function
                    );
                    (method, code)
                }
            };
            if !methods.insert(method) {
                ctx.class("not judged");
                return Ok(());
            }
            accessors += 1;
            body += &code;
        }
        want += &format!(
            "#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct {0} {{ pub(crate) syntax: SyntaxNode, }}
             impl {0} {{ {1} }}
             impl AstNode for {0} {{
                fn can_cast(kind: SyntaxKind) -> bool {{ kind == {2} }}
                fn cast(syntax: SyntaxNode) -> Option<Self> {{
                    if Self::can_cast(syntax.kind()) {{ Some(Self {{ syntax }}) }} else {{ None }}
                }}
                fn syntax(&self) -> &SyntaxNode {{ &self.syntax }}
             }}",
            names[i],
            body,
            snake(&names[i]).to_uppercase()
        );
    }
    for (e, variants) in &enums {
        let each = |f: &dyn Fn(&str, &str) -> String| -> String {
            variants.iter().map(|&v| f(&names[v], &snake(&names[v]).to_uppercase())).collect()
        };
        let kinds: Vec<String> = variants.iter().map(|&v| snake(&names[v]).to_uppercase()).collect();
        let e = &names[*e];
        want += &format!(
            "#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub enum {0} {{ {1} }} {2}
             impl AstNode for {0} {{
                fn can_cast(kind: SyntaxKind) -> bool {{ matches!(kind, {3}) }}
                fn cast(syntax: SyntaxNode) -> Option<Self> {{
                    let res = match syntax.kind() {{ {4} _ => return None, }};
                    Some(res)
                }}
                fn syntax(&self) -> &SyntaxNode {{ match self {{ {5} }} }}
             }}",
            e,
            each(&|v, _| format!("{0}({0}),", v)),
            each(&|v, _| format!("impl From<{0}> for {1} {{ fn from(node: {0}) -> {1} {{ {1}::{0}(node) }} }}", v, e)),
            kinds.join("|"),
            each(&|v, k| format!("{} => {1}::{2}({2} {{ syntax }}),", k, e, v)),
            each(&|v, _| format!("{}::{}(it) => &it.syntax,", e, v)),
        );
    }
    for it in &names {
        want += &format!(
            "impl std::fmt::Display for {} {{
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ std::fmt::Display::fmt(self.syntax(), f) }}
             }}",
            it
        );
    }
    ctx.nontrivial(accessors > 0);
    ctx.class_if(!enums.is_empty(), "with enumerations");
    same(&items(&generate("nodes", &text, false)?)?, &items(&want)?)
}

const PUNCT: &[(&str, &str)] = &[
    ("+", "PLUS"), ("-", "MINUS"), ("::", "COLON_COLON"), ("{", "L_BRACE"), ("}", "R_BRACE"), ("(", "L_PAREN"),
    (")", "R_PAREN"), ("[", "L_BRACK"), ("]", "R_BRACK"), ("<==>", "LT_EQ_EQ_GT"), ("&mut", "AMP_MUT"), ("!", "BANG"),
    ("#", "NUMSIGN"), ("..", "DOTDOT"), (".", "DOT"), ("_", "WILDCARD"), ("==", "EQ_EQ"), ("@", "ATSIGN"),
];
const WORDS: &[&str] = &["struct", "fun", "acquires", "let", "public_friend", "as", "mut", "u8", "true", "self", "x1"];

fn kinds(src: &mut Src, ctx: &mut Ctx) -> Res {
    fn some<T: Copy>(src: &mut Src, from: &[T], least: usize) -> Vec<T> {
        let mut them = from.to_vec();
        src.shuffle(&mut them);
        them.truncate(src.range(least, from.len()));
        them
    }
    let punct = some(src, PUNCT, 1);
    let keywords = some(src, WORDS, 1);
    let literals = some(src, &["INTEGER_NUMBER", "BYTE_STRING", "X"], 1);
    let tokens = some(src, &["ERROR", "IDENT", "WHITESPACE", "COMMENT"], 0);
    let nodes = some(src, &["SOURCE_FILE", "STRUCT", "LET_STMT", "A1", "EXPR", "NAME"], 0);
    let mut input = Vec::new();
    input.extend(punct.iter().map(|(text, name)| format!("punct {} {}", name, text)));
    for (sort, list) in [("keyword", &keywords), ("literal", &literals), ("token", &tokens), ("node", &nodes)] {
        input.extend(list.iter().map(|it| format!("{} {}", sort, it)));
    }
    src.shuffle(&mut input);
    // The order within each sort is that of the lines.
    let of = |sort: &str| -> Vec<&str> {
        input.iter().filter_map(|it| it.strip_prefix(sort)).map(|it| it.trim_start().split(' ').next().unwrap()).collect()
    };
    let text_of = |name: &str| punct.iter().find(|it| it.1 == name).unwrap().0;
    let (punct, keywords, literals, tokens, nodes) = (of("punct"), of("keyword"), of("literal"), of("token"), of("node"));
    ctx.show(|| input.join("; "));
    ctx.key(input.join(";").as_bytes());
    ctx.class("kinds");
    ctx.nontrivial(true);
    let upper: Vec<String> = keywords.iter().map(|it| format!("{}_KW", it.to_uppercase())).collect();
    let variants: Vec<String> = punct
        .iter()
        .map(|it| it.to_string())
        .chain(upper.clone())
        .chain(literals.iter().chain(&tokens).chain(&nodes).map(|it| it.to_string()))
        .collect();
    let words: String = keywords.iter().zip(&upper).map(|(word, kind)| format!("{:?} => {},", word, kind)).collect();
    let chars: String =
        punct.iter().filter(|it| text_of(it).len() == 1).map(|it| format!("'{}' => {},", text_of(it), it)).collect();
    let arms: String = punct
        .iter()
        .map(|it| {
            let text = text_of(it);
            let text = if "{}[]()".contains(text) { format!("'{}'", text) } else { text.to_string() };
            format!("[{}] => {{ $crate::SyntaxKind::{} }};", text, it)
        })
        .chain(keywords.iter().zip(&upper).map(|(word, kind)| format!("[{}] => {{ $crate::SyntaxKind::{} }};", word, kind)))
        .collect();
    let want = format!(
        "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
         #[repr(u16)]
         pub enum SyntaxKind {{ #[doc(hidden)] TOMBSTONE, #[doc(hidden)] EOF, {} #[doc(hidden)] __LAST, }}
         use self::SyntaxKind::*;
         impl SyntaxKind {{
            pub fn is_keyword(self) -> bool {{ matches!(self, {}) }}
            pub fn is_punct(self) -> bool {{ matches!(self, {}) }}
            pub fn is_literal(self) -> bool {{ matches!(self, {}) }}
            pub fn from_keyword(ident: &str) -> Option<SyntaxKind> {{
                let kw = match ident {{ {} _ => return None, }};
                Some(kw)
            }}
            pub fn from_char(c: char) -> Option<SyntaxKind> {{
                let tok = match c {{ {} _ => return None, }};
                Some(tok)
            }}
         }}
         #[macro_export]
         macro_rules! T {{
            {}
            [ident] => {{ $crate::SyntaxKind::IDENT }};
            [shebang] => {{ $crate::SyntaxKind::SHEBANG }};
         }}",
        variants.iter().map(|it| format!("{},", it)).collect::<String>(),
        upper.join("|"),
        punct.join("|"),
        literals.join("|"),
        words,
        chars,
        arms
    );
    let got = generate("kinds", &input.join("\n"), false)?;
    // Without the head of the file.
    let got = items(&got)?.join("\n");
    let want = items(&want)?.join("\n");
    let cut = |it: &str| -> String {
        it.lines().map(|l| l.find("# [ derive").map_or(l, |at| &l[at..]).to_string() + "\n").collect()
    };
    let (got, want) = (cut(&got), cut(&want));
    if got != want {
        let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(60);
        let part = |it: &str| it.chars().skip(at).take(200).collect::<String>();
        return Err(format!("generated:\n    {}\nexpected:\n    {}", part(&got), part(&want)));
    }
    Ok(())
}

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 6) {
        return kinds(src, ctx);
    }
    grammar(src, ctx)
}

/// With the real rustfmt, the code is the same, formatted.
fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    let what = ["nodes", "tokens", "kinds"][(i % 3) as usize];
    let input = match (what, i / 3) {
        ("kinds", 0) => "punct PLUS +\npunct L_BRACE {\nkeyword fun\nliteral X\ntoken IDENT\nnode STRUCT",
        ("kinds", _) => "punct EQ =\npunct AMP_AMP &&\nkeyword let\nkeyword as\nliteral X\nliteral Y",
        (_, 0) => "Foo = Bar* 'fun' '{' lhs:Baz? '}'\nBar = 'ident'\nBaz = Foo | Bar",
        _ => "Foo = (Type (',' Type)* ','?)\nType = '<' | '>'",
    };
    ctx.show(|| format!("{}:\n{}", what, input));
    ctx.key(&i.to_le_bytes());
    ctx.class("formatted");
    ctx.nontrivial(true);
    let plain = generate(what, input, false)?;
    let got = generate(what, input, true)?;
    let mut cmd = Command::new("rustfmt");
    cmd.args(["--config", "fn_single_line=true"]).env("RUSTUP_TOOLCHAIN", "stable");
    let mut child =
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    child.stdin.take().unwrap().write_all(plain.as_bytes()).map_err(|e| e.to_string())?;
    let mut want = String::from_utf8(child.wait_with_output().map_err(|e| e.to_string())?.stdout).map_err(|e| e.to_string())?;
    if what == "tokens" {
        want = want.replace("#[derive", "\n#[derive");
    }
    if got != want {
        return Err(format!("{}\nis not the formatted\n{}", got, want));
    }
    if what == "tokens" {
        let mut code = "use crate::{SyntaxKind::{self, *}, syntax_node::SyntaxToken, ast::AstToken}; use parser::T;".to_string();
        for it in ["Whitespace", "Comment", "HexString", "ByteString", "IntegerNumber"] {
            code += &format!(
                "#[derive(Debug, Clone, PartialEq, Eq, Hash)] pub struct {0} {{ pub(crate) syntax: SyntaxToken, }}
                 impl std::fmt::Display for {0} {{
                    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ std::fmt::Display::fmt(&self.syntax, f) }}
                 }}
                 impl AstToken for {0} {{
                    fn can_cast(kind: SyntaxKind) -> bool {{ kind == {1} }}
                    fn cast(syntax: SyntaxToken) -> Option<Self> {{
                        if Self::can_cast(syntax.kind()) {{ Some(Self {{ syntax }}) }} else {{ None }}
                    }}
                    fn syntax(&self) -> &SyntaxToken {{ &self.syntax }}
                 }}",
                it,
                snake(it).to_uppercase()
            );
        }
        same(&items(&plain)?, &items(&code)?)?;
    }
    Ok(())
}

pub static C39: Prop = Prop {
    id: "C39",
    rule: "a case is a generated grammar of 1 to 8 nodes, or lists of kinds, for which the generator is run; non-trivial: \
           a node with an accessor, or kinds",
    assumptions: &[
        "every rule has at most one name for single children of a type, and another for repeated ones (the second of \
         two is a recorded finding)",
        "labels and node names are neither keywords of Rust nor reserved for traits (name, attrs, ...); enumerations \
         consist of nodes with rules of their own",
    ],
    cases: (12_000, 300_000),
    case,
    fixed: Some((|_| 6, fixed)),
    ..PROP
};
