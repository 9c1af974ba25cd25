//! Parts of the server on their own: C11 (line ends), C23 (diagnostics store), C24 (disjoint edits), C29 (pool).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;

use lsp_types::{CompletionItem, CompletionTextEdit, Diagnostic, DiagnosticSeverity, InsertReplaceEdit, Position, Range, TextEdit};
use move_language_server::lsp_ext::CodeAction;
use move_language_server::vp_hooks::{all_edits_are_disjoint, normalize_line_endings, DiagnosticStore, Pool};
use vfs::FileId;

use super::parsing::quoted;
use crate::engine::{no_panic, Ctx, Prop, Res, Tier, PROP};
use crate::gen;
use crate::src::Src;

// ---------------------------------------------------------------- C11

fn c11_check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| quoted(text));
    ctx.key(text.as_bytes());
    ctx.nontrivial(text.contains('\r'));
    ctx.class_if(text.matches("\r\n").count() > 1, "several CRLF");
    ctx.class_if(text.replace("\r\n", "").contains('\r'), "lone CR");
    ctx.class_if(text.contains("\r\r\n"), "CR before CRLF");
    let mut want = String::new();
    let mut chars = text.chars().peekable();
    while let Some(c) = chars.next() {
        if c != '\r' || chars.peek() != Some(&'\n') {
            want.push(c);
        }
    }
    let (got, dos) = no_panic("normalize", || normalize_line_endings(text.to_string()))?;
    if std::str::from_utf8(got.as_bytes()).is_err() {
        return Err("the result is not UTF-8".into());
    }
    if got != want {
        return Err(format!("{:?}, expected {:?}", got, want));
    }
    if dos != text.contains('\r') {
        return Err(format!("reported as {}", if dos { "DOS" } else { "Unix" }));
    }
    if !text.contains("\r\r\n") {
        let (again, _) = no_panic("normalize", || normalize_line_endings(got.clone()))?;
        if again != got {
            return Err(format!("twice: {:?}, once: {:?}", again, got));
        }
    }
    Ok(())
}

fn c11_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut text = String::new();
    let n = *src.pick(&[20, 20, 60, 400]);
    for _ in 0..src.upto(n) {
        match src.below(8) {
            0 | 1 => text.push_str("\r\n"),
            2 => text.push('\r'),
            3 => text.push('\n'),
            4 => text.push_str(src.pick(&["line of text", "x", "\u{1F600}\u{4e16}\u{e9}", "    "])),
            _ => text.push(gen::unicode_char(src)),
        }
    }
    if src.chance(1, 2000) && !text.is_empty() {
        // Beyond 16 bits: of bytes, of CRLF, and before the first CR.
        let times = *src.pick(&[70_000usize, 140_000]) / if src.bool() { text.len() } else { (text.matches('\n').count()).max(1) };
        let times = times.min(3_000_000 / text.len());
        match src.below(3) {
            0 => text = text.repeat(times),
            1 => text.insert_str(0, &"x".repeat(*src.pick(&[65_535, 65_536, 70_000]))),
            _ => text = "\r\n".repeat(*src.pick(&[65_535, 65_536, 70_000])) + &text,
        }
        ctx.class("long text");
    }
    c11_check(&text, ctx)
}

const C11_ALPHABET: &[char] = &['\r', '\n', 'a', '\u{4e16}'];

fn c11_fixed_n(tier: Tier) -> u64 {
    let max = tier.pick(8, 10);
    (0..=max).map(|n| 4u64.pow(n)).sum()
}

fn c11_fixed(mut i: u64, ctx: &mut Ctx) -> Res {
    let mut len = 0;
    while i >= 4u64.pow(len) {
        i -= 4u64.pow(len);
        len += 1;
    }
    let text: String = (0..len).map(|k| C11_ALPHABET[(i / 4u64.pow(k) % 4) as usize]).collect();
    c11_check(&text, ctx)
}

pub static C11: Prop = Prop {
    id: "C11",
    rule: "a case is a text: all texts of up to 8 (thorough: 10) characters over CR, LF, an ASCII and a wide character, \
           then longer random ones; non-trivial: it has a CR",
    cases: (500_000, 60_000_000),
    case: c11_case,
    fixed: Some((c11_fixed_n, c11_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C23

/// What makes a diagnostic: its place, message, severity and source.
type Diag = (u32, u8, u8, u8);

fn diag(src: &mut Src) -> Diag {
    (src.below(3) as u32, src.below(2) as u8, src.below(3) as u8, src.below(3) as u8)
}

fn lsp_diag(d: Diag) -> Diagnostic {
    let severity = [Some(DiagnosticSeverity::Error), Some(DiagnosticSeverity::Warning), None][d.2 as usize];
    Diagnostic {
        range: lsp_range(d.0),
        severity,
        source: [Some("one"), Some("eno"), None][d.3 as usize].map(|it| it.to_string()),
        message: ["first", "fifth"][d.1 as usize].to_string(),
        ..Diagnostic::default()
    }
}

/// Ranges that agree in part.
fn lsp_range(n: u32) -> Range {
    if n >= 3 {
        return Range::new(Position::new(n, 0), Position::new(n, 5));
    }
    let (a, b) = [((0, 0), (0, 5)), ((0, 0), (1, 5)), ((0, 1), (0, 5))][n as usize];
    Range::new(Position::new(a.0, a.1), Position::new(b.0, b.1))
}

#[derive(Default)]
struct StoreModel {
    native: BTreeMap<u32, Vec<Diag>>,
    check: BTreeMap<u32, Vec<Diag>>,
    fixes: BTreeMap<u32, Vec<(u32, String)>>,
    changed: BTreeSet<u32>,
    /// Got their first native set, which is empty: a change or none.
    first_empty: BTreeSet<u32>,
}

fn c23_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut store = DiagnosticStore::default();
    let mut model = StoreModel::default();
    // A copy of the store, as of an earlier time.
    let mut copy: Option<(DiagnosticStore, Vec<(Vec<Diagnostic>, Vec<(Range, String)>)>)> = None;
    let mut ids: Vec<u32> = src.pick(&[[0, 1, 2], [0, 65_536, 131_072], [7, 1 << 31, u32::MAX]]).to_vec();
    let long = src.chance(1, 300);
    ctx.class_if(long, "long sets");
    let many = !long && src.chance(1, 300);
    if many {
        ctx.class("many files");
        ids = (0..*src.pick(&[17, 40, 70, 140, 300, 1100])).collect();
    }
    let mut log = Vec::new();
    let n_files = if many { ids.len() as u64 } else { src.range(1, 3) as u64 };
    let mut titles = 0;
    let mut res = Ok(());
    let mut drains = 0;
    for step in 0..src.range(1, 25) {
        let file = ids[src.below(n_files) as usize];
        if many && (step == 0 || src.chance(1, 12)) {
            // All files at once.
            let d = diag(src);
            let check = src.bool();
            log.push(format!("all files: {} {:?}", if check { "check" } else { "native" }, d));
            for file in &ids {
                if check {
                    no_panic("add", || store.add_check(FileId(*file), lsp_diag(d), vec![]))?;
                    let list = model.check.entry(*file).or_default();
                    if !list.contains(&d) {
                        list.push(d);
                        model.changed.insert(*file);
                    }
                } else {
                    no_panic("set", || store.set_native(FileId(*file), vec![lsp_diag(d)]))?;
                    if model.native.insert(*file, vec![d]) != Some(vec![d]) {
                        model.changed.insert(*file);
                    }
                }
            }
        }
        match src.weighted(&[5, 5, 2, 4, 1]) {
            4 => {
                log.push("copy".into());
                let files = ids.iter().map(|it| (store.get(FileId(*it)), store.fixes(FileId(*it)))).collect();
                copy = Some((store.clone(), files));
            }
            0 => {
                let old = model.native.get(&file).cloned();
                let set = match (&old, src.below(4)) {
                    // Nearly what it was.
                    (Some(old), 0) => old.clone(),
                    (Some(old), 1) => {
                        let mut set = old.clone();
                        if set.is_empty() || src.bool() {
                            set.push(diag(src));
                        } else if src.bool() {
                            set.pop();
                        } else {
                            let i = src.index(set.len());
                            set[i] = diag(src);
                        }
                        set
                    }
                    (Some(old), 2) => {
                        let mut set = old.clone();
                        set.reverse();
                        set
                    }
                    _ => {
                        let n = if long { *src.pick(&[9, 65, 127, 129, 257, 300]) } else { 0 };
                        let mut set: Vec<Diag> = (3..3 + n).map(|i| (i, 0, 0, 0)).collect();
                        set.extend(src.list(2, 5, diag));
                        set
                    }
                };
                log.push(format!("file {}: native {:?}", file, set));
                let list = set.iter().map(|it| lsp_diag(*it)).collect();
                no_panic("set", || store.set_native(FileId(file), list))?;
                match old {
                    None if set.is_empty() => drop(model.first_empty.insert(file)),
                    None => drop(model.changed.insert(file)),
                    Some(old) if old != set => drop(model.changed.insert(file)),
                    _ => (),
                }
                model.native.insert(file, set);
            }
            1 => {
                let mut d = diag(src);
                if long {
                    // First many others.
                    for i in 0..*src.pick(&[9, 65, 129, 300]) {
                        let other = (3 + i, 0, 0, 0);
                        no_panic("add", || store.add_check(FileId(file), lsp_diag(other), vec![]))?;
                        let list = model.check.entry(file).or_default();
                        if !list.contains(&other) {
                            list.push(other);
                            model.fixes.entry(file).or_default();
                            model.changed.insert(file);
                        }
                    }
                    if src.bool() {
                        d = (3, 0, 0, 0);
                    }
                }
                let fixes: Vec<String> = (0..if src.chance(1, 100) { src.range(3, 40) } else { src.upto(2) })
                    .map(|_| {
                        titles += 1;
                        format!("fix {}", titles)
                    })
                    .collect();
                log.push(format!("file {}: check {:?} with {:?}", file, d, fixes));
                let actions =
                    fixes.iter().map(|it| CodeAction { title: it.clone(), ..CodeAction::default() }).collect();
                no_panic("add", || store.add_check(FileId(file), lsp_diag(d), actions))?;
                let list = model.check.entry(file).or_default();
                if !list.contains(&d) {
                    list.push(d);
                    model.fixes.entry(file).or_default().extend(fixes.into_iter().map(|it| (d.0, it)));
                    model.changed.insert(file);
                } else {
                    ctx.class("repeated checker diagnostic");
                }
            }
            2 => {
                log.push("clear".into());
                no_panic("clear", || store.clear_check())?;
                for (file, list) in std::mem::take(&mut model.check) {
                    if !list.is_empty() {
                        ctx.class("checker diagnostics cleared");
                        model.changed.insert(file);
                    }
                }
                model.fixes.clear();
            }
            _ => {
                drains += 1;
                let list = no_panic("drain", || store.take_changes())?;
                log.push(format!("drain: {:?}", list));
                let got: BTreeSet<u32> = list.iter().flatten().map(|it| it.0).collect();
                let listed = list.as_ref().map_or(0, |it| it.len());
                let certain = &model.changed;
                let possible: BTreeSet<u32> = certain.union(&model.first_empty).copied().collect();
                if !certain.is_subset(&got) || !got.is_subset(&possible) || listed != got.len() {
                    res = Err(format!("reported as changed: {:?}, expected {:?}", list, certain));
                }
                model.changed.clear();
                model.first_empty.clear();
            }
        }
        if let Some((copy, files)) = &copy {
            let now: Vec<_> = ids.iter().map(|it| (copy.get(FileId(*it)), copy.fixes(FileId(*it)))).collect();
            if now != *files {
                res = Err(format!("a copy of the store has changed with it: {:?}, before {:?}", now, files));
            }
        }
        for file in ids.iter().copied() {
            let want: Vec<Diag> =
                model.native.get(&file).into_iter().chain(model.check.get(&file)).flatten().copied().collect();
            let want: Vec<Diagnostic> = want.into_iter().map(lsp_diag).collect();
            let got = no_panic("get", || store.get(FileId(file)))?;
            if got != want {
                res = Err(format!("file {}: {} diagnostics, expected {}: {:?}", file, got.len(), want.len(), got));
            }
            let want: Vec<(Range, String)> =
                model.fixes.get(&file).into_iter().flatten().map(|it| (lsp_range(it.0), it.1.clone())).collect();
            let got = no_panic("fixes", || store.fixes(FileId(file)))?;
            if got != want {
                res = Err(format!("file {}: fixes {:?}, expected {:?}", file, got, want));
            }
        }
        if res.is_err() {
            break;
        }
    }
    ctx.show(|| log.join("\n"));
    ctx.key(log.join("\n").as_bytes());
    ctx.nontrivial(drains > 0 && log.len() > drains);
    res
}

pub static C23: Prop = Prop {
    id: "C23",
    rule: "a case is a history of up to 25 operations on the store for up to 3 (rarely 1100) files, with diagnostics that differ in \
           as little as one of place, severity, source and message; non-trivial: something else than a drain, and a drain",
    assumptions: &["whether a file's first native set, if empty, counts as a change is left open"],
    cases: (300_000, 20_000_000),
    case: c23_case,
    ..PROP
};

// ---------------------------------------------------------------- C24

/// The lines and columns of the grid.
type Grid = [[u32; 6]; 2];

const GRIDS: &[[u32; 6]] = &[
    [0, 1, 2, 3, 4, 5],
    [0, 1, 255, 256, 257, 300],
    [1, 65_535, 65_536, 65_537, 131_072, 131_073],
    [0, 1, 1 << 16, 1 << 31, (1 << 31) + 1, u32::MAX],
    [9, 10, 11, 99, 100, 101],
];

fn grid(src: &mut Src) -> Grid {
    if src.chance(1, 3) {
        [*src.pick(GRIDS), *src.pick(GRIDS)]
    } else {
        [GRIDS[0], GRIDS[0]]
    }
}

fn pos(src: &mut Src) -> (u32, u32) {
    (src.below(3) as u32, src.below(4) as u32)
}

fn range(src: &mut Src) -> ((u32, u32), (u32, u32)) {
    let a = pos(src);
    if src.chance(1, 5) {
        return (a, a);
    }
    let b = if src.bool() { (a.0, a.1 + src.below(3) as u32) } else { pos(src) };
    (a.min(b), a.max(b))
}

fn to_range(g: &Grid, r: ((u32, u32), (u32, u32))) -> Range {
    let pos = |p: (u32, u32)| Position::new(g[0][p.0 as usize], g[1][p.1 as usize]);
    Range::new(pos(r.0), pos(r.1))
}

fn text_edit(g: &Grid, r: ((u32, u32), (u32, u32))) -> TextEdit {
    TextEdit::new(to_range(g, r), "x".into())
}

fn c24_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut item = CompletionItem::new_simple("label".into(), "detail".into());
    let mut ranges = Vec::new();
    let g = grid(src);
    ctx.class_if(g != [GRIDS[0], GRIDS[0]], "large positions");
    let mut insert_ok = true;
    match src.below(4) {
        1 => {
            let r = range(src);
            ranges.push(r);
            item.text_edit = Some(CompletionTextEdit::Edit(text_edit(&g, r)));
        }
        2 | 3 => {
            let replace = range(src);
            let insert = match src.below(3) {
                0 => (replace.0, pos(src).clamp(replace.0, replace.1)),
                1 => (replace.0, pos(src).max(replace.0)),
                _ => range(src),
            };
            insert_ok = insert.0 == replace.0 && insert.1 <= replace.1;
            ranges.push(replace);
            item.text_edit = Some(CompletionTextEdit::InsertAndReplace(InsertReplaceEdit {
                new_text: "x".into(),
                insert: to_range(&g, insert),
                replace: to_range(&g, replace),
            }));
            ctx.class(if insert_ok { "insert is a prefix of replace" } else { "insert is no prefix of replace" });
        }
        _ => (),
    }
    // Many edits that touch and follow each other, with or without what comes below.
    let mut chain = Vec::new();
    if src.chance(1, 20) {
        let mut at = (0, 0);
        while at < (5, 5) {
            let next = if at.1 < 5 { (at.0, at.1 + 1) } else { (at.0 + 1, 0) };
            if !src.chance(1, 4) {
                chain.push((at, next));
            }
            at = next;
        }
        if src.bool() {
            chain.reverse();
        }
    }
    let attached: Option<Vec<_>> = if src.bool() { Some(src.list(2, 5, range)) } else { None };
    let mut more: Vec<_> = if chain.is_empty() || src.bool() { src.list(2, 5, range) } else { vec![] };
    more.extend(chain);
    item.additional_text_edits = attached.as_ref().map(|it| it.iter().map(|r| text_edit(&g, *r)).collect());
    ranges.extend(attached.iter().flatten().copied());
    ranges.extend(&more);
    let more: Vec<TextEdit> = more.iter().map(|it| text_edit(&g, *it)).collect();
    let mut overlap = false;
    for (i, a) in ranges.iter().enumerate() {
        for b in &ranges[i + 1..] {
            overlap |= a.0 < b.1 && b.0 < a.1;
        }
    }
    let want = insert_ok && !overlap;
    ctx.show(|| format!("{:?}, attached {:?}, additional {:?}", item.text_edit, attached, more));
    ctx.key(format!("{:?}{:?}{:?}", item.text_edit, attached, more).as_bytes());
    ctx.nontrivial(ranges.len() > 1);
    ctx.class(if want { "disjoint" } else { "not disjoint" });
    ctx.class_if(want && ranges.len() > 2, "three or more disjoint edits");
    let got = no_panic("all_edits_are_disjoint", || all_edits_are_disjoint(&item, &more))?;
    if got != want {
        return Err(format!("called {}disjoint", if got { "" } else { "not " }));
    }
    Ok(())
}

pub static C24: Prop = Prop {
    id: "C24",
    rule: "a case is a completion with any kind of edit of its own and up to 10 additional edits on a small grid of \
           positions, so that touching, nested, equal and empty ranges are common; non-trivial: at least two ranges",
    assumptions: &["ranges have start not after end"],
    cases: (1_500_000, 60_000_000),
    case: c24_case,
    ..PROP
};

// ---------------------------------------------------------------- C29

fn c29_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    // A channel that holds all results, or few, so that the pool has to wait for the receiver.
    let bound = if src.chance(1, 3) { Some(src.upto(3)) } else { None };
    ctx.class_if(bound.is_some(), "bounded channel");
    let (sender, receiver) = match bound {
        Some(n) => crossbeam_channel::bounded::<u64>(n),
        None => crossbeam_channel::unbounded::<u64>(),
    };
    let drain = bound.map(|_| {
        let receiver = receiver.clone();
        std::thread::spawn(move || receiver.iter().collect::<Vec<u64>>())
    });
    let ran = Arc::new(AtomicU64::new(0));
    let mut want: BTreeMap<u64, u64> = BTreeMap::new();
    let mut got: BTreeMap<u64, u64> = BTreeMap::new();
    let n = match src.below(4) {
        0 => src.upto(3),
        1 => src.range(8, 40),
        2 if src.chance(1, 30) => src.range(1000, 3000),
        2 => src.range(40, 200),
        _ => src.upto(12),
    } as u64;
    let mut log = Vec::new();
    let mut multi = false;
    no_panic("pool", || {
        let mut pool = Pool::new(sender);
        for i in 0..n {
            let pause = if n >= 1000 { 0 } else { *src.pick(&[0, 0, 0, 20, 100, 400]) };
            let ran = Arc::clone(&ran);
            let work = move || {
                if pause > 0 {
                    std::thread::sleep(Duration::from_micros(pause));
                }
                ran.fetch_add(1, Ordering::SeqCst);
            };
            if src.bool() {
                want.insert(i * 100, 1);
                log.push(format!("{}us", pause));
                pool.spawn(move || {
                    work();
                    i * 100
                });
            } else {
                let k = src.upto(4) as u64;
                multi |= k > 1;
                for j in 0..k {
                    want.insert(i * 100 + j, 1);
                }
                log.push(format!("{}us sends {}", pause, k));
                pool.spawn_with_sender(move |sender| {
                    for j in 0..k {
                        sender.send(i * 100 + j).unwrap();
                    }
                    work();
                });
            }
            // Some are received while others run.
            if bound.is_none() && src.chance(1, 6) {
                for it in receiver.try_iter() {
                    *got.entry(it).or_default() += 1;
                }
            }
        }
        drop(pool);
    })?;
    // Everything has been done by now.
    let done = ran.load(Ordering::SeqCst);
    let left = receiver.len();
    if let Some(drain) = drain {
        // The pool held the only sender.
        for it in drain.join().map_err(|_| "the receiver panicked")? {
            *got.entry(it).or_default() += 1;
        }
    }
    for it in receiver.try_iter() {
        *got.entry(it).or_default() += 1;
    }
    ctx.show(|| format!("{} tasks: {}; {} results left when the pool was dropped", n, log.join(", "), left));
    ctx.key(log.join(",").as_bytes());
    ctx.nontrivial(n > 1);
    ctx.class_if(n > 16, "more tasks than threads");
    ctx.class_if(multi, "tasks with several results");
    if done != n {
        return Err(format!("{} tasks had run when the pool was dropped, of {}", done, n));
    }
    if got != want {
        let odd = want.keys().chain(got.keys()).find(|it| got.get(it) != want.get(it)).unwrap();
        return Err(format!("result {} is delivered {:?} times, expected {:?}", odd, got.get(odd), want.get(odd)));
    }
    // Nothing comes later.
    match receiver.recv_timeout(Duration::from_millis(20)) {
        Ok(it) => Err(format!("result {} is delivered after the pool was dropped", it)),
        Err(_) => Ok(()),
    }
}

pub static C29: Prop = Prop {
    id: "C29",
    rule: "a case is a pool given up to 200 tasks of both kinds with generated running times, dropped at the end; \
           non-trivial: at least two tasks",
    assumptions: &["tasks do not panic and the receiver lives as long as the pool"],
    cases: (8_000, 500_000),
    case: c29_case,
    threads: 4,
    ..PROP
};
