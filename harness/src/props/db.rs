//! C17 (incremental analysis), C18 (snapshots), C19 (diagnostics of a file).
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::channel;
use std::sync::Arc;
use std::time::{Duration, Instant};

use base_db::salsa::ParallelDatabase;
use base_db::{Change, FileId, SourceDatabase, SourceRoot, SourceRootId};
use ide::{Analysis, AnalysisHost};
use ide_db::{LineIndex, LineIndexDatabase, RootDatabase};
use ide_diagnostics::Diagnostic;
use syntax::SourceFile;
use vfs::file_set::FileSet;
use vfs::VfsPath;

use super::parsing::{bound, quoted};
use crate::engine::{no_panic, Ctx, Prop, Res, Tier, PROP};
use crate::gen;
use crate::src::Src;

fn text(src: &mut Src) -> String {
    match src.weighted(&[4, 3, 3, 1]) {
        0 => src
            .pick(&[
                "", "module M {}", "module M {", "script { fun f() {} }", "$", "\n", "x", "module 0x1::M { fun f() }",
                "// c", "script { fun f() { \u{1F600} } }\n", "module N {}",
            ])
            .to_string(),
        1 => bound(&gen::soup(src, 5, 20)),
        2 => bound(&gen::any_text(src, 15).0),
        _ => "$ ".repeat(src.range(120, 140)),
    }
}

fn edit(src: &mut Src, old: &str) -> String {
    match src.below(4) {
        0 => text(src),
        1 => bound(&gen::mutate(src, old.to_string(), 1)),
        2 => format!("{}{}", old, src.pick(&["\n", " ", "}", "$", "// c\n", "module M {}"])),
        _ => {
            let mut s = old.to_string();
            s.pop();
            s
        }
    }
}

/// What a diagnostic says.
fn key(d: &Diagnostic) -> String {
    format!("{} {:?} {:?} {:?} {} {}", d.code.as_str(), d.message, d.range, d.severity, d.unused, d.experimental)
}

/// The diagnostics of a text, from its syntax errors.
fn expected_diagnostics(text: &str) -> Vec<String> {
    let parse = SourceFile::parse(text);
    let errors = parse.errors();
    errors
        .iter()
        .take(128)
        .map(|e| format!("syntax-error {:?} {:?} Error false false", format!("Syntax Error: {}", e), e.range()))
        .collect()
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug)]
struct State {
    /// Text and source root of the files that exist.
    files: BTreeMap<u32, (String, u32)>,
    /// The root that a removed file was in last.
    removed: BTreeMap<u32, u32>,
    /// The roots after the last batch, of removed files as well.
    applied: BTreeMap<u32, u32>,
    /// Which roots are libraries.
    roots: Vec<bool>,
    /// The id of file number 0.
    base: u32,
}

fn vfs_path(file: u32) -> VfsPath {
    VfsPath::new_virtual_path(format!("/{}.move", file))
}

impl State {
    fn id(&self, file: u32) -> FileId {
        FileId(self.base + file)
    }
    fn source_roots(&self) -> Vec<SourceRoot> {
        (0..self.roots.len() as u32)
            .map(|root| {
                let mut set = FileSet::default();
                for (file, (_, r)) in &self.files {
                    if *r == root {
                        set.insert(self.id(*file), vfs_path(*file));
                    }
                }
                match self.roots[root as usize] {
                    true => SourceRoot::new_library(set),
                    false => SourceRoot::new_local(set),
                }
            })
            .collect()
    }
    /// Like `fresh`, in one pass over the files.
    fn fresh_fast(&self) -> AnalysisHost {
        let mut sets = vec![FileSet::default(); self.roots.len()];
        for (file, (_, r)) in &self.files {
            sets[*r as usize].insert(self.id(*file), vfs_path(*file));
        }
        let roots = sets.into_iter().zip(&self.roots).map(|(set, library)| match library {
            true => SourceRoot::new_library(set),
            false => SourceRoot::new_local(set),
        });
        let mut host = AnalysisHost::new();
        let mut change = Change::new();
        change.set_roots(roots.collect());
        for (file, (text, _)) in &self.files {
            change.change_file(self.id(*file), Some(Arc::new(text.clone())));
        }
        host.apply_change(change);
        host
    }
    fn fresh(&self) -> AnalysisHost {
        let mut host = AnalysisHost::new();
        let mut change = Change::new();
        change.set_roots(self.source_roots());
        for (file, (text, _)) in &self.files {
            change.change_file(self.id(*file), Some(Arc::new(text.clone())));
        }
        host.apply_change(change);
        host
    }
}

/// One query about one file.
fn ask(db: &RootDatabase, analysis: Option<&Analysis>, what: u64, file: u32, state: &State) -> Res {
    let id = state.id(file);
    let text = state.files.get(&file).map_or("", |it| it.0.as_str());
    let err = |what: &str, got: String, expected: String| {
        Err(format!("{} of file {}: {}, expected {}", what, file, got, expected))
    };
    match what {
        0 => {
            let got = db.parse(id);
            let expected = SourceFile::parse(text);
            if got != expected {
                return err("parse", got.debug_dump(), expected.debug_dump());
            }
            if got.syntax_node().text().to_string() != text {
                return err("tree text", got.syntax_node().text().to_string(), text.to_string());
            }
        }
        1 => {
            let got = match analysis {
                Some(it) => it.file_line_index(id).map_err(|_| "cancelled".to_string())?,
                None => db.line_index(id),
            };
            let expected = LineIndex::new(text);
            if *got != expected {
                return err("line index", format!("{:?}", got), format!("{:?}", expected));
            }
        }
        2 => {
            let got = match analysis {
                Some(it) => it.diagnostics(id).map_err(|_| "cancelled".to_string())?,
                None => ide_diagnostics::diagnostics(db, id),
            };
            let got: Vec<String> = got.iter().map(key).collect();
            let expected = expected_diagnostics(text);
            if got != expected {
                return err("diagnostics", format!("{:?}", got), format!("{:?}", expected));
            }
        }
        3 => {
            let got = db.file_text(id);
            if *got != text {
                return err("text", quoted(&got), quoted(text));
            }
        }
        4 => {
            let got = db.file_source_root(id);
            let expected = match state.files.get(&file) {
                Some(it) => it.1,
                None => state.removed[&file],
            };
            if got != SourceRootId(expected) {
                return err("source root", format!("{:?}", got), format!("{}", expected));
            }
        }
        5 => {
            let roots = state.source_roots();
            for (i, root) in roots.iter().enumerate() {
                let got = db.source_root(SourceRootId(i as u32));
                if *got != *root {
                    return err("source root contents", format!("{:?} {:?}", i, got), format!("{:?}", root));
                }
                let mut ids: Vec<u32> = got.iter().map(|it| it.0.wrapping_sub(state.base)).collect();
                ids.sort();
                let expected: Vec<u32> =
                    state.files.iter().filter(|it| it.1 .1 == i as u32).map(|it| *it.0).collect();
                if ids != expected {
                    return err("files of a root", format!("{:?}", ids), format!("{:?}", expected));
                }
                for f in ids {
                    if got.path_for_file(&state.id(f)) != Some(&vfs_path(f))
                        || got.file_for_path(&vfs_path(f)) != Some(&state.id(f))
                    {
                        return err("path", format!("{}", f), format!("{:?}", vfs_path(f)));
                    }
                }
            }
        }
        _ => {
            let roots = |library: bool| {
                (0..state.roots.len()).filter(|it| state.roots[*it] == library).map(|it| it as u32).collect::<Vec<_>>()
            };
            for library in [false, true] {
                let got = if library { db.library_roots() } else { db.local_roots() };
                let mut got: Vec<u32> = got.iter().map(|it| it.0).collect();
                got.sort();
                if got != roots(library) {
                    return err("root kinds", format!("{} {:?}", library, got), format!("{:?}", roots(library)));
                }
            }
        }
    }
    Ok(())
}

const N_QUERIES: u64 = 7;

fn c17_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n_files = src.range(1, 5) as u32;
    let base = *src.pick(&[0, 0, 0, 127, 254, 65533, 65536, 1 << 24, u32::MAX - 8]);
    let mut state = State {
        files: BTreeMap::new(),
        removed: BTreeMap::new(),
        applied: BTreeMap::new(),
        roots: vec![false],
        base,
    };
    let mut host = AnalysisHost::new();
    let mut script = format!("first id {}; ", base);
    let mut changes = 0;
    let mut queries = 0;
    let n = src.range(2, 16);
    let res = (|| -> Res {
        for step in 0..n {
            match if step == 0 { 0 } else { src.weighted(&[5, 6, 1, 1, 1]) } {
                0 => {
                    // A batch of changes; the last one for a file counts.
                    let mut change = Change::new();
                    let mut structure = step == 0;
                    let mut edits: Vec<(u32, Option<String>)> = Vec::new();
                    for _ in 0..src.range(1, 4) {
                        let file = src.below(n_files as u64) as u32;
                        let old = state.files.get(&file).cloned();
                        let new = match &old {
                            Some(_) if src.chance(1, 5) => None,
                            Some((old, _)) => Some(edit(src, old)),
                            None => Some(text(src)),
                        };
                        structure |= old.is_some() != new.is_some();
                        match &new {
                            Some(text) => {
                                let root = match &old {
                                    Some(it) => it.1,
                                    None => src.index(state.roots.len()) as u32,
                                };
                                state.removed.remove(&file);
                                state.files.insert(file, (text.clone(), root));
                            }
                            None => {
                                state.files.remove(&file);
                                // It stays where it was last; if it never was anywhere, it is not known at all.
                                if let Some(root) = state.applied.get(&file) {
                                    state.removed.insert(file, *root);
                                }
                            }
                        }
                        edits.push((file, new));
                    }
                    if src.chance(1, 5) {
                        // Reorganise: other roots, other kinds, files moved between them.
                        structure = true;
                        let n = if src.chance(1, 40) { src.range(255, 300) } else { src.range(1, 3) };
                        state.roots = if n > 3 { (0..n).map(|i| i % 3 == 0).collect() } else { (0..n).map(|_| src.bool()).collect() };
                        for it in state.files.values_mut() {
                            it.1 = src.index(state.roots.len()) as u32;
                        }
                        script.push_str(&format!("roots {:?}; ", state.roots));
                    }
                    edits.retain(|it| state.files.contains_key(&it.0) || state.removed.contains_key(&it.0));
                    if structure {
                        change.set_roots(state.source_roots());
                    }
                    for (file, new) in edits {
                        script.push_str(&format!("{} := {}; ", file, new.as_deref().map_or("-".into(), quoted)));
                        change.change_file(state.id(file), new.map(Arc::new));
                    }
                    script.push_str(&format!("apply {:?}; ", change));
                    host.apply_change(change);
                    let now: Vec<(u32, u32)> = state.files.iter().map(|it| (*it.0, it.1 .1)).collect();
                    state.applied.extend(now);
                    changes += 1;
                }
                1 => {
                    let files: Vec<u32> = state.files.keys().chain(state.removed.keys()).copied().collect();
                    if files.is_empty() {
                        continue;
                    }
                    let snapshot = src.bool();
                    let analysis = host.analysis();
                    let snap = host.raw_database().snapshot();
                    for _ in 0..src.range(1, 4) {
                        let file = *src.pick(&files);
                        let what = src.below(N_QUERIES);
                        script.push_str(&format!("ask {} {}; ", what, file));
                        queries += 1;
                        if snapshot {
                            no_panic("query", || ask(&snap, Some(&analysis), what, file, &state))??;
                        } else {
                            no_panic("query", || ask(host.raw_database(), None, what, file, &state))??;
                        }
                    }
                }
                2 => {
                    let cap = *src.pick(&[None, Some(1), Some(2), Some(3), Some(0), Some(1000)]);
                    script.push_str(&format!("capacity {:?}; ", cap));
                    host.raw_database_mut().update_lru_capacity(cap);
                }
                3 => {
                    script.push_str("cancel; ");
                    host.request_cancellation();
                }
                _ => {
                    // The same contents again.
                    if let Some((file, (text, _))) = state.files.iter().next() {
                        let mut change = Change::new();
                        change.change_file(state.id(*file), Some(Arc::new(text.clone())));
                        script.push_str(&format!("again {}; ", file));
                        host.apply_change(change);
                    }
                }
            }
        }
        // Everything, against the expectation and against a fresh start.
        let fresh = state.fresh();
        let files: Vec<u32> = state.files.keys().chain(state.removed.keys()).copied().collect();
        for file in files {
            for what in 0..N_QUERIES {
                no_panic("query", || ask(host.raw_database(), None, what, file, &state))??;
            }
            if state.files.contains_key(&file) {
                let id = state.id(file);
                let (a, b) = (host.raw_database(), fresh.raw_database());
                let keys = |db: &RootDatabase| {
                    ide_diagnostics::diagnostics(db, id).iter().map(key).collect::<Vec<_>>()
                };
                if a.parse(id) != b.parse(id)
                    || a.line_index(id) != b.line_index(id)
                    || a.file_text(id) != b.file_text(id)
                    || a.file_source_root(id) != b.file_source_root(id)
                    || keys(a) != keys(b)
                {
                    return Err(format!("file {} answers differently in a fresh database", file));
                }
            }
        }
        let (a, b) = (host.raw_database(), fresh.raw_database());
        if a.local_roots() != b.local_roots() || a.library_roots() != b.library_roots() {
            return Err("the roots differ in a fresh database".into());
        }
        Ok(())
    })();
    ctx.show(|| script.clone());
    ctx.key(script.as_bytes());
    ctx.nontrivial(changes > 1 && queries > 0);
    ctx.count("changes", changes);
    ctx.count("queries", queries);
    res
}

/// Many files and roots, more than the cache holds trees.
fn c17_fixed(i: u64, ctx: &mut Ctx) -> Res {
    let (n, n_roots) = [(400, 1), (400, 300), (70_000, 70_000), (3000, 4)][i as usize];
    ctx.show(|| format!("{} files in {} roots", n, n_roots));
    ctx.nontrivial(true);
    let make = |j: u32, round: u32| match (j + round) % 5 {
        0 => String::new(),
        1 => format!("module M{} {{}}\n", j),
        2 => format!("module M{} {{", j),
        3 => "\n".repeat((j % 50) as usize) + "$",
        _ => format!("script {{ fun f{}() {{ let x = {}; }} }}", j, round),
    };
    let mut state = State {
        files: BTreeMap::new(),
        removed: BTreeMap::new(),
        applied: BTreeMap::new(),
        roots: (0..n_roots).map(|r| r % 2 == 1).collect(),
        base: 0,
    };
    for j in 0..n {
        state.files.insert(j, (make(j, 0), j % n_roots));
    }
    let mut host = state.fresh_fast();
    // Every file in a small case, some in a large one; then change some of them and ask again.
    let step = (n / 1500).max(1) as usize;
    for round in 1..4 {
        for j in (0..n).step_by(step).chain(Some(n - 1)) {
            for what in [0, 1, 2, 3, 4] {
                ask(host.raw_database(), None, what, j, &state)?;
            }
        }
        if n <= 3000 && n_roots <= 300 {
            ask(host.raw_database(), None, 5, 0, &state)?;
        }
        ask(host.raw_database(), None, 6, 0, &state)?;
        let mut change = Change::new();
        for j in (0..n).filter(|j| j % 3 == round % 3) {
            let text = make(j, round);
            state.files.get_mut(&j).unwrap().0 = text.clone();
            change.change_file(FileId(j), Some(Arc::new(text)));
        }
        host.apply_change(change);
    }
    Ok(())
}

pub static C17: Prop = Prop {
    id: "C17",
    rule: "a case is a history of up to 16 change batches (contents, removals, root reorganisation), queries \
           directly and through snapshots, cache-size changes and cancellations over up to 5 files; at the end \
           every query is asked and compared with a fresh database; file ids from several ranges, sometimes 255 \
           roots and more; fixed cases have up to 70000 files and roots; non-trivial: at least two batches and a \
           query between",
    assumptions: &["a removed file answers as an empty one (the database cannot forget it)"],
    cases: (120_000, 5_000_000),
    case: c17_case,
    fixed: Some((|_| 4, c17_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C18

/// What a worker reports about one query.
struct Answer {
    state: usize,
    file: u32,
    /// `None`: cancelled.
    got: Option<Result<(), String>>,
    /// Changes begun when the query was answered.
    begun: u64,
}

fn query(analysis: &Analysis, texts: &[String], file: u32, what: u64) -> Result<Option<Result<(), String>>, String> {
    let id = FileId(file);
    let text = &texts[file as usize];
    no_panic("query", || {
        if what == 0 {
            match analysis.file_line_index(id) {
                Err(_) => None,
                Ok(got) => Some(match *got == LineIndex::new(text) {
                    true => Ok(()),
                    false => Err(format!("line index {:?} of {}", got, quoted(text))),
                }),
            }
        } else {
            match analysis.diagnostics(id) {
                Err(_) => None,
                Ok(got) => {
                    let got: Vec<String> = got.iter().map(key).collect();
                    let expected = expected_diagnostics(text);
                    Some(match got == expected {
                        true => Ok(()),
                        false => Err(format!("diagnostics {:?} of {}", got, quoted(text))),
                    })
                }
            }
        }
    })
}

fn c18_text(src: &mut Src) -> String {
    if src.chance(1, 6) {
        // Takes a while to parse.
        let piece = *src.pick(&["module M { fun f() { let x = 1 + 2; } }\n", "$ ", "fun f( { ", "// c\n"]);
        return bound(&piece.repeat(src.range(50, 600)));
    }
    text(src)
}

fn c18_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n_files = src.range(1, 3) as u32;
    let n_states = src.range(2, 5);
    let mut states: Vec<Vec<String>> = vec![(0..n_files).map(|_| c18_text(src)).collect()];
    let mut batches: Vec<Vec<u32>> = vec![(0..n_files).collect()];
    for _ in 1..n_states {
        let mut next = states.last().unwrap().clone();
        let mut batch: Vec<u32> = (0..n_files).filter(|_| src.bool()).collect();
        if batch.is_empty() {
            batch.push(0);
        }
        for f in &batch {
            next[*f as usize] = c18_text(src);
        }
        states.push(next);
        batches.push(batch);
    }
    // For each state, the snapshots taken in it: queries with a pause before each.
    type Plan = Vec<(u32, u64, u64)>;
    let plans: Vec<Vec<Plan>> = (0..n_states)
        .map(|_| {
            (0..src.upto(3))
                .map(|_| {
                    src.list(3, 6, |src| {
                        let pause = *src.pick(&[0, 0, 1, 10, 50, 200, 1000]);
                        (src.below(n_files as u64) as u32, src.below(2), pause)
                    })
                })
                .collect()
        })
        .collect();
    // Snapshots that go on being asked until they answer that they are cancelled.
    let insist: Vec<bool> = (0..n_states).map(|i| i + 1 < n_states && src.chance(1, 4)).collect();
    let pauses: Vec<u64> = (0..n_states).map(|_| *src.pick(&[0, 0, 5, 50, 300])).collect();
    let cancels: Vec<bool> = (0..n_states).map(|_| src.chance(1, 6)).collect();
    let kinds: Vec<bool> = (0..n_states).map(|_| src.bool()).collect();
    ctx.show(|| {
        let texts: Vec<Vec<String>> = states.iter().map(|it| it.iter().map(|t| quoted(t)).collect()).collect();
        format!(
            "states {:?}\nsnapshots (file, query, pause) {:?}\ninsist {:?} pauses {:?} cancellations {:?}",
            texts, plans, insist, pauses, cancels
        )
    });
    let mut host = AnalysisHost::new();
    let begun = AtomicU64::new(0);
    let (send, recv) = channel::<Result<Answer, String>>();
    let n_snapshots: usize = plans.iter().map(|it| it.len()).sum();
    let begun = &begun;
    let states = &states;
    let mut failure = None;
    std::thread::scope(|scope| {
        for i in 0..n_states {
            let mut change = Change::new();
            // The first change makes the root; later ones may make it again, as workspace or library.
            if i == 0 || kinds[i] {
                let mut set = FileSet::default();
                for f in 0..n_files {
                    set.insert(FileId(f), vfs_path(f));
                }
                let library = i > 0 && kinds[i - 1];
                let root = if library { SourceRoot::new_library(set) } else { SourceRoot::new_local(set) };
                change.set_roots(vec![root]);
            }
            for f in &batches[i] {
                change.change_file(FileId(*f), Some(Arc::new(states[i][*f as usize].clone())));
            }
            begun.fetch_add(1, Ordering::SeqCst);
            host.apply_change(change);
            for plan in &plans[i] {
                let analysis = host.analysis();
                let send = send.clone();
                scope.spawn(move || {
                    for (file, what, pause) in plan {
                        wait(*pause);
                        let got = query(&analysis, &states[i], *file, *what);
                        let answer = got.map(|got| Answer { state: i, file: *file, got, begun: begun.load(Ordering::SeqCst) });
                        let _ = send.send(answer);
                    }
                });
            }
            if insist[i] {
                let analysis = host.analysis();
                let send = send.clone();
                scope.spawn(move || {
                    let start = Instant::now();
                    loop {
                        let got = query(&analysis, &states[i], 0, 1);
                        let stop = !matches!(got, Ok(Some(Ok(()))));
                        let late = start.elapsed() > Duration::from_secs(20);
                        let begun = begun.load(Ordering::SeqCst);
                        let answer = got.map(|got| Answer { state: i, file: 0, got, begun });
                        let _ = send.send(if late && !stop { Err("a snapshot is never cancelled".into()) } else { answer });
                        if stop || late {
                            break;
                        }
                        std::thread::yield_now();
                    }
                });
            }
            if cancels[i] {
                begun.fetch_add(1, Ordering::SeqCst);
                host.request_cancellation();
            }
            // The state can be seen at once.
            let analysis = host.analysis();
            for f in 0..n_files {
                match query(&analysis, &states[i], f, 1) {
                    Ok(Some(Ok(()))) => (),
                    Ok(Some(Err(e))) => failure = Some(format!("after change {}: {}", i, e)),
                    Ok(None) => failure = Some(format!("after change {}: cancelled without a change", i)),
                    Err(e) => failure = Some(e),
                }
            }
            drop(analysis);
            wait(pauses[i]);
        }
    });
    drop(send);
    if let Some(f) = failure {
        return Err(f);
    }
    let (mut answered, mut cancelled) = (0, 0);
    for answer in recv {
        let a = answer?;
        // Cancellations count as changes begun; the state's own change is number `own`.
        let own = 1 + a.state as u64 + cancels[..a.state].iter().filter(|it| **it).count() as u64;
        match a.got {
            Some(Ok(())) => answered += 1,
            Some(Err(e)) => return Err(format!("snapshot of state {}, file {}: {}", a.state, a.file, e)),
            None if a.begun > own => cancelled += 1,
            None => return Err(format!("snapshot of state {}: cancelled although no change was begun", a.state)),
        }
    }
    ctx.nontrivial(answered > 0 && n_snapshots > 1);
    ctx.class_if(cancelled > 0, "cancelled");
    ctx.class_if(answered > 0 && cancelled > 0, "answered and cancelled");
    ctx.count("answered", answered);
    ctx.count("cancelled", cancelled);
    Ok(())
}

fn wait(micros: u64) {
    let start = Instant::now();
    while start.elapsed() < Duration::from_micros(micros) {
        std::hint::spin_loop();
    }
}

pub static C18: Prop = Prop {
    id: "C18",
    rule: "a case is up to 5 states of up to 3 files, applied one after the other, with up to 4 snapshots per \
           state asked on threads of their own with generated pauses while the next changes are applied; \
           non-trivial: at least two snapshots and an answered query",
    assumptions: &["interleavings are those that arise from the generated pauses on this machine"],
    cases: (6_000, 300_000),
    case: c18_case,
    threads: 4,
    ..PROP
};

// ---------------------------------------------------------------- C19

fn c19_text(src: &mut Src) -> String {
    if src.chance(1, 3) {
        let piece = *src.pick(&["$ ", "fun ", "module M { struct S { a } }\n", "script { fun f() { let = 1; } }", "\u{e9}"]);
        let n = match src.below(3) {
            0 => src.upto(10),
            1 => src.range(40, 140),
            _ => src.upto(600),
        };
        let mut text = piece.repeat(n);
        if src.bool() {
            text.push_str(&gen::soup(src, 5, 20));
        }
        return bound(&text);
    }
    bound(&gen::any_text(src, 40).0)
}

fn c19_check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.show(|| quoted(text));
    ctx.key(text.as_bytes());
    let mut host = AnalysisHost::new();
    let mut set = FileSet::default();
    set.insert(FileId(0), vfs_path(0));
    let mut change = Change::new();
    change.set_roots(vec![SourceRoot::new_local(set)]);
    change.change_file(FileId(0), Some(Arc::new(text.to_string())));
    host.apply_change(change);
    let got = no_panic("diagnostics", || host.analysis().diagnostics(FileId(0)))?.map_err(|_| "cancelled".to_string())?;
    let n = SourceFile::parse(text).errors().len();
    ctx.nontrivial(n > 0);
    ctx.class(match n {
        0 => "no error",
        1..=126 => "1 to 126 errors",
        127..=130 => "127 to 130 errors",
        _ => "more than 130 errors",
    });
    if got.len() != n.min(128) {
        return Err(format!("{} diagnostics for {} errors", got.len(), n));
    }
    let got: Vec<String> = got.iter().map(key).collect();
    let expected = expected_diagnostics(text);
    match got.iter().zip(&expected).position(|(a, b)| a != b) {
        Some(i) => Err(format!("diagnostic {}: {}, expected {}", i, got[i], expected[i])),
        None => Ok(()),
    }
}

fn c19_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let text = c19_text(src);
    c19_check(&text, ctx)
}

fn c19_fixed(i: u64, ctx: &mut Ctx) -> Res {
    c19_check(&"$ ".repeat(i as usize), ctx)
}

fn c19_fixed_n(tier: Tier) -> u64 {
    tier.pick(300, 3000)
}

pub static C19: Prop = Prop {
    id: "C19",
    rule: "a case is a text: 0 to 299 mistakes in a row, then random texts and repetitions; non-trivial: it has a \
           syntax error",
    assumptions: &["the syntax errors are those the parser reports for the text (see C01 to C06)"],
    cases: (40_000, 2_000_000),
    case: c19_case,
    fixed: Some((c19_fixed_n, c19_fixed)),
    ..PROP
};
