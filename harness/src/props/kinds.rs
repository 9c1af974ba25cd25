//! C30: token sets and the tables of token kinds.
use parser::{SyntaxKind, SyntaxKind::*, TokenSet};

use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::gen;
use crate::lex;
use crate::src::Src;

fn token_kinds() -> Vec<SyntaxKind> {
    gen::all_kinds().into_iter().filter(|it| (*it as u16) < SOURCE_FILE as u16).collect()
}

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(1, 4) {
        return words(src, ctx);
    }
    ctx.class("token sets");
    let kinds = token_kinds();
    let mut draw = || src.list(5, 40, |src| *src.pick(&kinds));
    let (a, b, c) = (draw(), draw(), draw());
    ctx.show(|| format!("{:?} {:?} {:?}", a, b, c));
    ctx.key(format!("{:?} {:?} {:?}", a, b, c).as_bytes());
    ctx.nontrivial(!a.is_empty() && !b.is_empty());
    no_panic("token set", || {
        let (s, t, u) = (TokenSet::new(&a), TokenSet::new(&b), TokenSet::new(&c));
        let v = s.union(t).union(u);
        for k in &kinds {
            if s.contains(*k) != a.contains(k) {
                return Err(format!("set of {:?}: contains({:?}) is {}", a, k, s.contains(*k)));
            }
            let want = a.contains(k) || b.contains(k) || c.contains(k);
            if v.contains(*k) != want {
                return Err(format!("union of {:?}, {:?}, {:?}: contains({:?}) is {}", a, b, c, k, !want));
            }
            if TokenSet::EMPTY.contains(*k) {
                return Err(format!("the empty set contains {:?}", k));
            }
        }
        Ok(())
    })?
}

/// Words near keywords, and random ones.
fn words(src: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.class("words");
    let mut word: Vec<char> = src.pick(lex::KEYWORDS).0.chars().collect();
    match src.below(6) {
        0 => (),
        1 => {
            let i = src.index(word.len());
            word.remove(i);
        }
        2 => {
            let i = src.upto(word.len());
            word.insert(i, *src.pick(&['a', '_', 'S', '0', 'e', 't']));
        }
        3 => {
            let i = src.index(word.len());
            word[i] = word[i].to_ascii_uppercase();
        }
        4 => {
            let i = src.index(word.len());
            word[i] = (b'a' + src.below(26) as u8) as char;
        }
        _ => word = gen::unicode(src, 4, 10).chars().collect(),
    }
    let word: String = word.into_iter().collect();
    ctx.show(|| word.clone());
    ctx.key(word.as_bytes());
    ctx.nontrivial(!word.is_empty());
    let want = lex::KEYWORDS.iter().find(|it| it.0 == word).map(|it| it.1);
    let got = SyntaxKind::from_keyword(&word);
    if got != want {
        return Err(format!("from_keyword({:?}) is {:?}, expected {:?}", word, got, want));
    }
    Ok(())
}

/// The tables, all of them: kinds by number, and every character.
fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    if i == 0 {
        ctx.class("kind tables");
        let kinds = gen::all_kinds();
        for (n, kind) in kinds.iter().enumerate() {
            if u16::from(*kind) as usize != n || SyntaxKind::from(n as u16) != *kind {
                return Err(format!("numeric encoding of {:?}", kind));
            }
            let keyword = lex::KEYWORDS.iter().any(|it| it.1 == *kind);
            let punct =
                lex::PUNCT.iter().any(|it| it.1 == *kind) || matches!(kind, AMP_MUT | WILDCARD);
            let literal = matches!(kind, INTEGER_NUMBER | BYTE_STRING | HEX_STRING);
            if kind.is_keyword() != keyword {
                return Err(format!("{:?}.is_keyword() is {}", kind, !keyword));
            }
            if kind.is_punct() != punct {
                return Err(format!("{:?}.is_punct() is {}", kind, !punct));
            }
            if kind.is_literal() != literal {
                return Err(format!("{:?}.is_literal() is {}", kind, !literal));
            }
            if kind.is_trivia() != lex::is_trivia(*kind) {
                return Err(format!("{:?}.is_trivia() is {}", kind, kind.is_trivia()));
            }
        }
        for (word, kind) in lex::KEYWORDS {
            if SyntaxKind::from_keyword(word) != Some(*kind) {
                return Err(format!("from_keyword({:?})", word));
            }
            if leaf_kind(word)? != *kind {
                return Err(format!("the lexer does not agree on {:?}", word));
            }
        }
        for (p, kind) in lex::PUNCT {
            if leaf_kind(p)? != *kind {
                return Err(format!("the lexer does not agree on {:?}", p));
            }
        }
        return Ok(());
    }
    // Characters, 0x1000 at a time.
    ctx.class("characters");
    let from = (i - 1) as u32 * 0x1000;
    for c in (from..from + 0x1000).filter_map(char::from_u32) {
        let single = lex::PUNCT.iter().find(|it| it.0.len() == 1 && it.0.starts_with(c)).map(|it| it.1);
        let want = if c == '_' { Some(WILDCARD) } else { single };
        if SyntaxKind::from_char(c) != want {
            return Err(format!("from_char({:?}) is {:?}, expected {:?}", c, SyntaxKind::from_char(c), want));
        }
        if let Some(kind) = single {
            if leaf_kind(&c.to_string())? != kind {
                return Err(format!("the lexer does not agree on {:?}", c));
            }
        }
    }
    Ok(())
}

/// The kind of the only leaf of a text of one token.
fn leaf_kind(text: &str) -> Result<SyntaxKind, String> {
    let parse = super::parsing::parse(text)?;
    let leaf = parse.syntax_node().first_token().ok_or("no leaf")?;
    if leaf.text() != text {
        return Err(format!("{:?} is not one token", text));
    }
    Ok(leaf.kind())
}

pub static C30: Prop = Prop {
    id: "C30",
    rule: "all kinds and all characters against the tables, then random lists of token kinds and words near \
           keywords; non-trivial: the sets are not empty, the word is not empty",
    cases: (100_000, 3_000_000),
    case,
    fixed: Some((|_| 1 + 0x110, fixed)),
    ..PROP
};
