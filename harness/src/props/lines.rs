//! C08: line and column conversion.
use ide_db::{LineCol, LineColUtf16, LineIndex};
use syntax::{TextRange, TextSize};

use super::parsing::quoted;
use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::gen;
use crate::src::Src;

fn case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = match src.weighted(&[4, 3, 1]) {
        0 => gen::unicode(src, 20, 120),
        1 => {
            // Few kinds of characters, many lines.
            let alphabet = ['a', '\n', '\u{e9}', '\u{4e16}', '\u{1F600}', '\r', '\t'];
            let mut s = String::new();
            for _ in 0..src.upto(40) {
                s.push(*src.pick(&alphabet));
            }
            s
        }
        _ => gen::program(src, 30).1,
    };
    ctx.show(|| quoted(&text));
    ctx.key(text.as_bytes());
    ctx.nontrivial(text.contains('\n') && !text.is_ascii());
    ctx.class_if(text.ends_with('\n'), "ends with a newline");
    ctx.class_if(text.chars().any(|c| c.len_utf16() == 2), "surrogate pairs");
    ctx.class_if(text.is_empty(), "empty");
    no_panic("line index", || check(src, &text))?
}

fn check(src: &mut Src, text: &str) -> Res {
    let index = LineIndex::new(text);
    let mut line = 0u32;
    let mut start = 0usize;
    let mut utf16 = 0u32;
    let mut bounds = Vec::new();
    for (i, c) in text.char_indices().map(|(i, c)| (i, Some(c))).chain([(text.len(), None)]) {
        bounds.push(i);
        let offset = TextSize::from(i as u32);
        let lc = index.line_col(offset);
        let want = LineCol { line, col: (i - start) as u32 };
        if lc != want {
            return Err(format!("offset {}: {:?}, expected {:?}", i, lc, want));
        }
        if index.offset(lc) != offset {
            return Err(format!("{:?} converts to {:?}, expected {}", lc, index.offset(lc), i));
        }
        let wide = index.to_utf16(lc);
        let want = LineColUtf16 { line, col: utf16 };
        if wide != want {
            return Err(format!("offset {}: {:?}, expected {:?}", i, wide, want));
        }
        let back = index.to_utf8(wide);
        if back != lc {
            return Err(format!("{:?} converts to {:?}, expected {:?}", wide, back, lc));
        }
        match c {
            Some('\n') => {
                line += 1;
                start = i + 1;
                utf16 = 0;
            }
            Some(c) => utf16 += c.len_utf16() as u32,
            None => (),
        }
    }
    for _ in 0..6 {
        let (a, b) = (*src.pick(&bounds), *src.pick(&bounds));
        let (a, b) = (a.min(b), a.max(b));
        check_lines(&index, text, a, b)?;
    }
    check_lines(&index, text, 0, text.len())
}

fn check_lines(index: &LineIndex, text: &str, a: usize, b: usize) -> Res {
    let range = TextRange::new(TextSize::from(a as u32), TextSize::from(b as u32));
    let got: Vec<(usize, usize)> =
        index.lines(range).map(|it| (it.start().into(), it.end().into())).collect();
    let mut want = Vec::new();
    let mut pos = a;
    for piece in text[a..b].split_inclusive('\n') {
        want.push((pos, pos + piece.len()));
        pos += piece.len();
    }
    if got != want {
        return Err(format!("lines of {:?}: {:?}, expected {:?}", range, got, want));
    }
    Ok(())
}

/// Lines and columns beyond 16 bits.
fn long(i: u64, ctx: &mut Ctx) -> Res {
    let wide = ["\u{e9}", "\u{4e16}", "\u{1F600}"][(i % 3) as usize];
    let many = match i / 3 {
        0 => format!("{}\n", wide).repeat(70_000),
        1 => format!("{}\n{}", "\n".repeat(65_534), format!("a{}\n", wide).repeat(6)),
        2 => format!("{}{}{}\n{}", wide.repeat(5), "a".repeat(70_000), wide.repeat(3), wide),
        3 => format!("{}{}a\n{}", "a".repeat(65_530), wide.repeat(8), wide),
        _ => format!("{}\n{}a", wide.repeat(3_000), wide.repeat(400)),
    };
    ctx.class("long");
    ctx.key(&i.to_le_bytes());
    ctx.nontrivial(true);
    let mut src = Src::random(i);
    no_panic("line index", || check(&mut src, &many))?
}

pub static C08: Prop = Prop {
    id: "C08",
    rule: "a case is a text and seven ranges in it; every character boundary is converted there and back; some \
           have lines and columns beyond 65536; \
           non-trivial: several lines and a non-ASCII character",
    cases: (1_500_000, 30_000_000),
    case,
    fixed: Some((|_| 15, long)),
    ..PROP
};
