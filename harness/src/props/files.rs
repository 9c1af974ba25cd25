//! C12 (virtual file system), C13 (source roots), C14 (paths), C15 (file selection).
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::path::{Path, PathBuf};

use base_db::SourceRoot;
use paths::{AbsPath, AbsPathBuf, RelPath, RelPathBuf};
use vfs::file_set::{FileSet, FileSetConfig};
use vfs::loader::{Directories, Entry};
use vfs::{AnchoredPath, ChangeKind, FileId, Vfs, VfsPath};

use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::src::Src;

const WORDS: &[&str] = &[
    "a", "b", "ab", "a.move", "abc", "c", "a b", "a.b.c", ".a", "a.", "\u{e9}", "\u{4e16}\u{1F600}.x", "...",
    "A", "src", "srcs", "src.d", "%41", "~", "-", "a\\b", ".a.b", "x..y", "a,b", "b.move", "..a", "a..", "#1",
];

type Comps = Vec<String>;

fn comps(src: &mut Src, avg: u64, max: usize) -> Comps {
    let small = src.chance(2, 3);
    let words = if small { &WORDS[..6] } else { WORDS };
    src.list(avg, max, |src| src.pick(words).to_string())
}

fn abs(c: &[String]) -> String {
    format!("/{}", c.join("/"))
}

fn abs_buf(c: &[String]) -> AbsPathBuf {
    AbsPathBuf::assert(abs(c).into())
}

/// The path written with superfluous steps and separators that do not change its meaning.
fn noisy(src: &mut Src, c: &[String]) -> String {
    let mut s = "/".to_string();
    let sep = |src: &mut Src, s: &mut String| {
        if src.chance(1, 5) {
            s.push('/');
        }
        if src.chance(1, 5) {
            s.push_str("./");
        }
        if src.chance(1, 5) {
            s.push_str(src.pick(WORDS));
            s.push_str("/../");
        }
        if s == "/" && src.chance(1, 5) {
            // Above the root is the root.
            s.push_str("../");
        }
    };
    for (i, it) in c.iter().enumerate() {
        if i > 0 {
            s.push('/');
        }
        sep(src, &mut s);
        s.push_str(it);
    }
    if src.chance(1, 4) {
        s.push('/');
        if src.chance(1, 4) {
            s.push('.');
        }
    }
    s
}

/// The reference for normalisation: resolve the steps one after the other.
fn resolve(text: &str) -> Comps {
    let mut res = Comps::new();
    for step in text.split('/') {
        match step {
            "" | "." => (),
            ".." => {
                res.pop();
            }
            it => res.push(it.to_string()),
        }
    }
    res
}

/// Stem and extension of a file name.
fn split_name(name: &str) -> (String, Option<String>) {
    match name.rfind('.') {
        None | Some(0) => (name.to_string(), None),
        Some(i) => (name[..i].to_string(), Some(name[i + 1..].to_string())),
    }
}

// ---------------------------------------------------------------- C12

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Key {
    real: bool,
    comps: Comps,
}

fn key(src: &mut Src) -> Key {
    Key { real: src.chance(2, 3), comps: comps(src, 1, 4) }
}

fn vfs_path(src: &mut Src, key: &Key) -> VfsPath {
    if key.real {
        let text = if src.bool() { noisy(src, &key.comps) } else { abs(&key.comps) };
        VfsPath::from(AbsPathBuf::assert(text.into()))
    } else {
        VfsPath::new_virtual_path(abs(&key.comps))
    }
}

fn contents(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 2, 2]) {
        0 => src.pick(&["x", "", "y", "xx", "x\n", "\0"]).as_bytes().to_vec(),
        1 => src.list(4, 20, |src| src.below(256) as u8),
        _ => vec![b'z'; src.upto(3) * 1000],
    }
}

/// Contents that differ from `old` as little as can be.
fn altered(src: &mut Src, old: &[u8]) -> Vec<u8> {
    let mut new = old.to_vec();
    if src.chance(1, 8) {
        // Something long.
        new.resize(src.range(1, 70) * 1000, b'y');
    }
    if new.is_empty() || src.chance(1, 4) {
        let at = src.upto(new.len());
        new.insert(at, b'q');
    } else {
        // The last byte differs more often than any other.
        let at = if src.bool() { new.len() - 1 } else { src.upto(new.len() - 1) };
        match src.below(3) {
            0 => new[at] ^= 1 << src.below(8),
            1 => new[at] = new[at].to_ascii_uppercase() ^ 0x80,
            _ => {
                new.remove(at);
            }
        }
    }
    new
}

fn c12_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut vfs = Vfs::default();
    let mut model: BTreeMap<Key, Vec<u8>> = BTreeMap::new();
    let mut ids: BTreeMap<Key, FileId> = BTreeMap::new();
    let mut seen: BTreeSet<Key> = BTreeSet::new();
    let mut log: Vec<(Key, ChangeKind)> = Vec::new();
    let large = src.chance(1, 40);
    let pool: Vec<Key> = if large { src.list(60, 300, key) } else { src.list(4, 8, key) };
    if pool.is_empty() {
        return Ok(());
    }
    ctx.class_if(large, "large");
    let n = if large { src.range(100, 600) } else { src.range(1, 40) };
    let mut script = String::new();
    let mut effective = 0;
    let mut drained = 0;
    for _ in 0..n {
        let k = src.pick(&pool).clone();
        let path = vfs_path(src, &k);
        match src.weighted(&[5, 2, 1, 2]) {
            op @ (0 | 1) => {
                let new = if op == 0 {
                    // Often the same contents again.
                    match model.get(&k) {
                        Some(old) if src.chance(1, 4) => Some(old.clone()),
                        Some(old) if src.chance(1, 2) => Some(altered(src, old)),
                        _ => Some(contents(src)),
                    }
                } else {
                    None
                };
                script.push_str(&format!("set {:?} {:?}; ", path, new.as_ref().map(|it| it.len())));
                let old = model.get(&k);
                let kind = match (old, &new) {
                    (None, Some(_)) => Some(ChangeKind::Create),
                    (Some(_), None) => Some(ChangeKind::Delete),
                    (Some(a), Some(b)) if a != b => Some(ChangeKind::Modify),
                    _ => None,
                };
                let changed = no_panic("set", || vfs.set_file_contents(path, new.clone()))?;
                if changed != kind.is_some() {
                    ctx.show(|| script.clone());
                    return Err(format!("set returned {}, expected {:?}", changed, kind));
                }
                seen.insert(k.clone());
                if let Some(kind) = kind {
                    effective += 1;
                    log.push((k.clone(), kind));
                }
                match new {
                    Some(it) => model.insert(k.clone(), it),
                    None => model.remove(&k),
                };
            }
            2 => {
                script.push_str("drain; ");
                if vfs.has_changes() == log.is_empty() {
                    return Err(format!("has_changes is {}", vfs.has_changes()));
                }
                let got = vfs.take_changes();
                drained += got.len();
                if got.len() != log.len() {
                    ctx.show(|| script.clone());
                    return Err(format!("{} changes drained, expected {}", got.len(), log.len()));
                }
                for (g, (k, kind)) in got.iter().zip(&log) {
                    let path = vfs.file_path(g.file_id);
                    if g.change_kind != *kind || path != vfs_path_plain(k) {
                        ctx.show(|| script.clone());
                        return Err(format!("change {:?} of {:?}, expected {:?} of {:?}", g.change_kind, path, kind, k));
                    }
                    if g.exists() != (*kind != ChangeKind::Delete)
                        || g.is_created_or_deleted() != (*kind != ChangeKind::Modify)
                    {
                        return Err(format!("classification of {:?}", kind));
                    }
                }
                log.clear();
                if vfs.has_changes() || !vfs.take_changes().is_empty() {
                    return Err("changes are left after draining".into());
                }
            }
            _ => {
                script.push_str(&format!("get {:?}; ", path));
                check_vfs_entry(&vfs, &k, &path, &model, &mut ids).map_err(|e| {
                    ctx.show(|| script.clone());
                    e
                })?;
            }
        }
    }
    ctx.show(|| script.clone());
    ctx.nontrivial(effective > 2 && drained > 0);
    ctx.count("effective updates", effective);
    // The whole state at the end.
    for k in &pool {
        let path = vfs_path(src, k);
        check_vfs_entry(&vfs, k, &path, &model, &mut ids)?;
    }
    if vfs.len() != seen.len() {
        return Err(format!("{} files were ever set, the length is {}", seen.len(), vfs.len()));
    }
    let listed: Vec<(FileId, VfsPath)> = vfs.iter().map(|(id, p)| (id, p.clone())).collect();
    let mut paths: Vec<&VfsPath> = listed.iter().map(|it| &it.1).collect();
    paths.sort();
    let mut expected: Vec<VfsPath> = model.keys().map(vfs_path_plain).collect();
    expected.sort();
    if paths != expected.iter().collect::<Vec<_>>() {
        return Err(format!("listed {:?}, expected {:?}", paths, expected));
    }
    for (id, p) in &listed {
        if vfs.file_id(p) != Some(*id) || vfs.file_path(*id) != *p {
            return Err(format!("{:?} is listed under id {:?}", p, id));
        }
    }
    Ok(())
}

/// Many more files than fit the small integer types.
fn c12_fixed(i: u64, ctx: &mut Ctx) -> Res {
    let n = [300, 70_000, 140_000][i as usize];
    ctx.show(|| format!("{} files", n));
    ctx.nontrivial(true);
    let path = |j: usize| VfsPath::new_virtual_path(format!("/{}/f{}", j % 7, j));
    let text = |j: usize| Some(j.to_string().into_bytes());
    let mut vfs = Vfs::default();
    for j in 0..n {
        if !vfs.set_file_contents(path(j), text(j)) {
            return Err(format!("file {} is not new", j));
        }
    }
    let ids: Vec<FileId> = (0..n).map(|j| vfs.file_id(&path(j)).unwrap()).collect();
    if ids.iter().collect::<BTreeSet<_>>().len() != n {
        return Err("an id is given twice".into());
    }
    let made = vfs.take_changes();
    if made.len() != n || made.iter().zip(&ids).any(|(c, id)| c.file_id != *id || c.change_kind != ChangeKind::Create) {
        return Err(format!("{} changes for {} new files", made.len(), n));
    }
    // Every third file is deleted, every seventh modified.
    let mut expected = Vec::new();
    for j in 0..n {
        if j % 3 == 0 {
            vfs.set_file_contents(path(j), None);
            expected.push((ids[j], ChangeKind::Delete));
        } else if j % 7 == 0 {
            vfs.set_file_contents(path(j), text(j + 1));
            expected.push((ids[j], ChangeKind::Modify));
        } else if vfs.set_file_contents(path(j), text(j)) {
            return Err(format!("file {} did not change", j));
        }
    }
    let got: Vec<_> = vfs.take_changes().into_iter().map(|it| (it.file_id, it.change_kind)).collect();
    if got != expected {
        return Err("the change log differs".into());
    }
    let mut listed = 0;
    for (id, p) in vfs.iter() {
        listed += 1;
        let j = ids.binary_search(&id).map_err(|_| format!("unknown id {:?}", id))?;
        if j % 3 == 0 || *p != path(j) {
            return Err(format!("id {:?} is listed as {:?}", id, p));
        }
    }
    if listed != n - (n + 2) / 3 || vfs.len() != n {
        return Err(format!("{} of {} files are listed, the length is {}", listed, n, vfs.len()));
    }
    for j in 0..n {
        let id = vfs.file_id(&path(j));
        if id != Some(ids[j]).filter(|_| j % 3 != 0) || vfs.file_path(ids[j]) != path(j) {
            return Err(format!("file {} has id {:?}", j, id));
        }
        if id.map_or(false, |id| Some(vfs.file_contents(id).to_vec()) != text(if j % 7 == 0 { j + 1 } else { j })) {
            return Err(format!("file {} has other contents", j));
        }
    }
    Ok(())
}

fn vfs_path_plain(k: &Key) -> VfsPath {
    if k.real {
        VfsPath::from(abs_buf(&k.comps))
    } else {
        VfsPath::new_virtual_path(abs(&k.comps))
    }
}

fn check_vfs_entry(
    vfs: &Vfs,
    k: &Key,
    path: &VfsPath,
    model: &BTreeMap<Key, Vec<u8>>,
    ids: &mut BTreeMap<Key, FileId>,
) -> Res {
    match (vfs.file_id(path), model.get(k)) {
        (None, None) => Ok(()),
        (Some(id), Some(expected)) => {
            let old = *ids.entry(k.clone()).or_insert(id);
            if old != id {
                return Err(format!("{:?} had id {:?}, now {:?}", k, old, id));
            }
            if ids.iter().any(|(other, it)| *it == id && other != k) {
                return Err(format!("{:?} shares id {:?}", k, id));
            }
            if vfs.file_contents(id) != &expected[..] {
                return Err(format!("{:?} has other contents", k));
            }
            if vfs.file_path(id) != *path {
                return Err(format!("id {:?} has path {:?}, expected {:?}", id, vfs.file_path(id), path));
            }
            Ok(())
        }
        (got, expected) => {
            Err(format!("{:?}: id {:?}, but it {}", k, got, if expected.is_some() { "exists" } else { "does not exist" }))
        }
    }
}

pub static C12: Prop = Prop {
    id: "C12",
    rule: "a case is a history of up to 40 (one in 40: up to 600) set, delete, drain and query operations on up \
           to 8 (300) real and virtual paths, real ones written in different ways, with contents often the same or \
           one byte away; three fixed cases have up to 140000 files; non-trivial: more than two effective updates \
           and a drain that returned something",
    cases: (300_000, 12_000_000),
    case: c12_case,
    fixed: Some((|_| 3, c12_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C13

fn is_under(path: &[String], root: &[String]) -> bool {
    path.len() >= root.len() && path[..root.len()] == *root
}

fn c13_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    // Roots, each set with one or more of them; related ones are likely.
    let mut sets: Vec<Vec<Key>> = Vec::new();
    let mut known: Vec<Key> = Vec::new();
    for _ in 0..src.upto(4) {
        let mut set = Vec::new();
        for _ in 0..src.range(1, 2) {
            let k = near(src, &known);
            known.push(k.clone());
            set.push(k);
        }
        sets.push(set);
    }
    let mut files: Vec<Key> = Vec::new();
    for _ in 0..src.upto(10) {
        let k = near(src, &known);
        if !files.contains(&k) {
            files.push(k.clone());
            known.push(k);
        }
    }
    ctx.show(|| format!("roots {:?}\nfiles {:?}", sets, files));
    ctx.key(format!("{:?}{:?}", sets, files).as_bytes());

    let mut vfs = Vfs::default();
    // Some files were deleted again.
    let mut existing: BTreeMap<Key, FileId> = BTreeMap::new();
    let mut gone = Vec::new();
    for k in &files {
        vfs.set_file_contents(vfs_path_plain(k), Some(vec![]));
    }
    for k in &files {
        let id = vfs.file_id(&vfs_path_plain(k)).unwrap();
        if src.chance(1, 6) {
            vfs.set_file_contents(vfs_path_plain(k), None);
            gone.push((k.clone(), id));
        } else {
            existing.insert(k.clone(), id);
        }
    }
    let mut builder = FileSetConfig::builder();
    for (i, set) in sets.iter().enumerate() {
        if builder.len() != i {
            return Err(format!("builder has {} sets after {}", builder.len(), i));
        }
        builder.add_file_set(set.iter().map(|k| vfs_path(src, k)).collect());
    }
    let config = builder.build();
    let groups: Vec<FileSet> = no_panic("partition", || config.partition(&vfs))?;
    if groups.len() != sets.len() + 1 {
        return Err(format!("{} groups for {} roots", groups.len(), sets.len()));
    }
    let mut group_of: BTreeMap<&Key, usize> = BTreeMap::new();
    for (k, id) in &existing {
        let holders: Vec<usize> = (0..groups.len()).filter(|i| groups[*i].path_for_file(id).is_some()).collect();
        let longest = sets
            .iter()
            .flatten()
            .filter(|root| root.real == k.real && is_under(&k.comps, &root.comps))
            .map(|root| root.comps.len())
            .max();
        let allowed: Vec<usize> = match longest {
            None => vec![sets.len()],
            // The same root may be listed in several sets.
            Some(n) => (0..sets.len())
                .filter(|i| {
                    sets[*i].iter().any(|r| r.real == k.real && r.comps.len() == n && is_under(&k.comps, &r.comps))
                })
                .collect(),
        };
        match holders.as_slice() {
            [g] if allowed.contains(g) => {
                group_of.insert(k, *g);
            }
            _ => return Err(format!("{:?} is in groups {:?}, expected one of {:?}", k, holders, allowed)),
        }
    }
    ctx.nontrivial(existing.len() > 1 && group_of.values().collect::<BTreeSet<_>>().len() > 1);
    ctx.class_if(sets.iter().flatten().any(|a| sets.iter().flatten().any(|b| a != b && a.real == b.real && is_under(&a.comps, &b.comps))), "nested roots");

    // Each group is a consistent, exact map.
    for (g, set) in groups.iter().enumerate() {
        let mut ids: Vec<FileId> = set.iter().collect();
        ids.sort();
        let mut expected: Vec<FileId> = group_of.iter().filter(|it| *it.1 == g).map(|it| existing[*it.0]).collect();
        expected.sort();
        if ids != expected || set.len() != expected.len() {
            return Err(format!("group {} lists {:?}, expected {:?}", g, ids, expected));
        }
        let root = if g % 2 == 0 { SourceRoot::new_local(set.clone()) } else { SourceRoot::new_library(set.clone()) };
        if root.is_library != (g % 2 == 1) {
            return Err("is_library".into());
        }
        let mut root_ids: Vec<FileId> = root.iter().collect();
        root_ids.sort();
        if root_ids != expected {
            return Err(format!("source root {} lists {:?}", g, root_ids));
        }
        for k in &files {
            let path = vfs_path(src, k);
            let here = group_of.get(k) == Some(&g);
            let id = existing.get(k).copied().filter(|_| here);
            if set.file_for_path(&path).copied() != id || root.file_for_path(&path).copied() != id {
                return Err(format!("group {}: id of {:?} is {:?}", g, path, set.file_for_path(&path)));
            }
            if let Some(id) = id {
                if set.path_for_file(&id) != Some(&path) || root.path_for_file(&id) != Some(&path) {
                    return Err(format!("group {}: path of {:?}", g, id));
                }
            }
        }
        for (_, id) in &gone {
            if set.path_for_file(id).is_some() {
                return Err(format!("group {} has deleted file {:?}", g, id));
            }
        }
    }

    // Relative look-up.
    for _ in 0..src.upto(6) {
        if files.is_empty() {
            break;
        }
        let anchor = src.pick(&files).clone();
        let anchor_id = match existing.get(&anchor) {
            Some(it) => *it,
            None => gone.iter().find(|it| it.0 == anchor).unwrap().1,
        };
        // Half of the time towards a file that exists.
        let (ups, tail) = if src.bool() {
            let target = src.pick(&files).comps.clone();
            let base = &anchor.comps[..anchor.comps.len().saturating_sub(1)];
            let mut common = base.iter().zip(&target).take_while(|(a, b)| a == b).count();
            common = common.min(target.len().saturating_sub(1));
            (base.len() - common, target[common..].to_vec())
        } else {
            (src.upto(3), comps(src, 1, 3))
        };
        let mut rel = "../".repeat(ups);
        rel.push_str(&"./".repeat(*src.pick(&[0, 0, 1, 2])));
        rel.push_str(&tail.join("/"));
        // The virtual look-up only knows leading steps, and a path needs a name.
        if (!anchor.real && tail.is_empty()) || (!anchor.real && anchor.comps.is_empty()) {
            continue;
        }
        let mut target = anchor.comps.clone();
        target.pop();
        let mut above = false;
        for _ in 0..ups {
            above |= target.pop().is_none();
        }
        target.extend(tail);
        let target = Key { real: anchor.real, comps: target };
        for (g, set) in groups.iter().enumerate() {
            let mut expected = existing.get(&target).filter(|_| group_of[&target] == g).copied();
            if group_of.get(&anchor) != Some(&g) {
                expected = None;
            }
            if above && !anchor.real {
                // Above the virtual root there is nothing.
                expected = None;
            }
            let got =
                no_panic("resolve", || set.resolve_path(AnchoredPath { anchor: anchor_id, path: &rel }))?;
            if got != expected {
                ctx.show(|| format!("from {:?}: {:?}", anchor, rel));
                return Err(format!("group {}: {:?} from {:?} is {:?}, expected {:?}", g, rel, anchor, got, expected));
            }
            ctx.class_if(expected.is_some(), "relative look-up found");
        }
    }
    Ok(())
}

/// Many roots, many files, and long chains of nested roots.
fn c13_fixed(i: u64, ctx: &mut Ctx) -> Res {
    ctx.nontrivial(true);
    let mut vfs = Vfs::default();
    let mut builder = FileSetConfig::builder();
    // Path of every file and the number of its group.
    let mut files: Vec<(VfsPath, usize)> = Vec::new();
    let real = |s: String| VfsPath::from(AbsPathBuf::assert(s.into()));
    match i {
        // More roots than fit a byte (or two), one file in each and some outside.
        0 | 1 => {
            let n = [300, 66_000][i as usize];
            for j in 0..n {
                builder.add_file_set(vec![real(format!("/r{}", j))]);
                files.push((real(format!("/r{}/m.move", j)), j));
                if j % 50 == 0 {
                    files.push((real(format!("/r{}x", j)), n));
                }
            }
        }
        // One root with very many files.
        2 => {
            builder.add_file_set(vec![real("/a".into())]);
            builder.add_file_set(vec![real("/a/b".into())]);
            for j in 0..70_000 {
                files.push((real(format!("/{}/f{}", ["a", "a/b", "c"][j % 3], j)), j % 3));
            }
        }
        // Every directory on a long path is a root, in reverse order.
        _ => {
            let n = 400;
            for j in (0..n).rev() {
                builder.add_file_set(vec![real(format!("/{}", "d/".repeat(j)))]);
                files.push((real(format!("/{}f", "d/".repeat(j))), n - 1 - j));
            }
        }
    }
    ctx.show(|| format!("{} roots, {} files", builder.len(), files.len()));
    let n = builder.len();
    let config = builder.build();
    for (p, _) in &files {
        vfs.set_file_contents(p.clone(), Some(vec![]));
    }
    let groups = config.partition(&vfs);
    if groups.len() != n + 1 {
        return Err(format!("{} groups for {} roots", groups.len(), n));
    }
    for (p, g) in &files {
        let id = vfs.file_id(p).unwrap();
        if groups[*g].file_for_path(p) != Some(&id) || groups[*g].path_for_file(&id) != Some(p) {
            let holders: Vec<_> = (0..=n).filter(|g| groups[*g].file_for_path(p).is_some()).collect();
            return Err(format!("{:?} is in groups {:?}, not in {}", p, holders, g));
        }
        if i == 2 {
            let name = p.to_string();
            let name = &name[name.rfind('/').unwrap() + 1..];
            if groups[*g].resolve_path(AnchoredPath { anchor: id, path: name }) != Some(id) {
                return Err(format!("{:?} from {:?}", name, p));
            }
        }
    }
    if groups.iter().map(|g| g.len()).sum::<usize>() != files.len()
        || groups.iter().map(|g| g.iter().count()).sum::<usize>() != files.len()
    {
        return Err("a file is in two groups".into());
    }
    Ok(())
}

/// A path, likely above, below or beside one that is known.
fn near(src: &mut Src, known: &[Key]) -> Key {
    if known.is_empty() || src.chance(1, 3) {
        let mut k = key(src);
        if !k.real && k.comps.is_empty() {
            k.comps.push("a".into());
        }
        return k;
    }
    let mut k = src.pick(known).clone();
    match src.below(4) {
        0 => {
            let n = src.range(1, 2);
            for _ in 0..n {
                k.comps.push(src.pick(WORDS).to_string());
            }
        }
        1 => {
            k.comps.pop();
        }
        // `/a/b` and `/a/bc`.
        2 => {
            if let Some(last) = k.comps.last_mut() {
                last.push_str(*src.pick(&["b", "c", ".x", " ", "\u{e9}"]));
            }
        }
        _ => {
            if let Some(last) = k.comps.last_mut() {
                *last = src.pick(WORDS).to_string();
            }
        }
    }
    if !k.real && k.comps.is_empty() {
        k.comps.push("a".into());
    }
    k
}

pub static C13: Prop = Prop {
    id: "C13",
    rule: "a case is up to 4 sets of source roots and up to 10 files (related paths, real and virtual, some \
           deleted), partitioned, looked up and resolved relative to each other; fixed cases have up to 66000 \
           roots, 70000 files and 400 nested roots; non-trivial: at least two files in at least two groups",
    assumptions: &[
        "a root listed in several sets may count for any of them",
        "the virtual root itself is neither a root nor a file",
    ],
    cases: (80_000, 4_000_000),
    case: c13_case,
    fixed: Some((|_| 4, c13_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C14

fn c14_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let a = comps(src, 2, 6);
    let text = noisy(src, &a);
    let other = match src.below(4) {
        0 => a.clone(),
        1 => a[..src.upto(a.len())].to_vec(),
        2 => {
            let mut b = a.clone();
            b.extend(comps(src, 1, 2));
            b
        }
        _ => near(src, &[Key { real: true, comps: a.clone() }]).comps,
    };
    let other_text = noisy(src, &other);
    ctx.show(|| format!("{:?} {:?}", text, other_text));
    ctx.key(text.as_bytes());
    ctx.key(other_text.as_bytes());
    ctx.nontrivial(text != abs(&a) && !a.is_empty());
    no_panic("paths", || check_real(src, &text, &other_text))??;
    no_panic("virtual paths", || check_virtual(src, ctx, &a))?
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, expected: T) -> Res {
    if got == expected {
        Ok(())
    } else {
        Err(format!("{}: {:?}, expected {:?}", what, got, expected))
    }
}

fn check_real(src: &mut Src, text: &str, other_text: &str) -> Res {
    let (a, b) = (resolve(text), resolve(other_text));
    let path = AbsPathBuf::try_from(text).map_err(|_| "not absolute".to_string())?;
    let other = AbsPathBuf::assert(other_text.into());
    let norm = path.normalize();
    eq("normalize", norm.as_os_str().to_str(), Some(abs(&a).as_str()))?;
    eq("normalize twice", norm.normalize().as_os_str(), norm.as_os_str())?;
    let other_norm = other.normalize();
    // Same file exactly if same normal form.
    eq("== of paths", path == *other.as_path(), Path::new(text) == Path::new(other_text))?;
    eq("== of normal forms", norm == *other_norm.as_path(), a == b)?;
    eq("try_from", AbsPathBuf::try_from(PathBuf::from(text)).map(|it| it == path), Ok(true))?;
    let (v, w) = (VfsPath::from(path.clone()), VfsPath::from(other.clone()));
    eq("same file", v == w, a == b)?;
    eq("as_path", v.as_path().map(|it| it.as_os_str().to_os_string()), Some(norm.as_os_str().to_os_string()))?;
    eq("display", v.to_string(), abs(&a))?;
    // Prefixes.
    eq("starts_with", norm.starts_with(&other_norm), is_under(&a, &b))?;
    eq("VfsPath::starts_with", v.starts_with(&w), is_under(&a, &b))?;
    let rest = if is_under(&a, &b) { Some(a[b.len()..].join("/")) } else { None };
    let stripped = norm.strip_prefix(&other_norm);
    eq("strip_prefix", stripped.map(|it| it.as_ref().to_str().unwrap().to_string()), rest)?;
    if let Some(rel) = stripped {
        eq("strip and join", other_norm.join(rel).normalize(), norm.clone())?;
        eq("ends_with", norm.ends_with(rel), true)?;
    }
    let suffix = if b.is_empty() { None } else { Some(b.join("/")) };
    if let Some(suffix) = suffix {
        let expected = a.len() >= b.len() && a[a.len() - b.len()..] == b[..];
        let rel = RelPathBuf::try_from(suffix.as_str()).map_err(|_| "not relative".to_string())?;
        eq("ends_with", norm.ends_with(&rel), expected)?;
        eq("RelPath", norm.ends_with(RelPath::new_unchecked(Path::new(&suffix))), expected)?;
    }
    // Parents.
    let parent = if a.is_empty() { None } else { Some(abs(&a[..a.len() - 1])) };
    eq("parent", norm.parent().map(|it| it.as_os_str().to_str().unwrap().to_string()), parent.clone())?;
    eq("VfsPath::parent", v.parent().map(|it| it.to_string()), parent.clone())?;
    let mut popped = v.clone();
    eq("pop", popped.pop(), parent.is_some())?;
    eq("popped", popped.to_string(), parent.clone().unwrap_or_else(|| abs(&a)))?;
    let mut popped = norm.clone();
    eq("AbsPathBuf::pop", popped.pop(), parent.is_some())?;
    eq("AbsPathBuf popped", popped.as_os_str().to_str().unwrap().to_string(), parent.unwrap_or_else(|| abs(&a)))?;
    // Joining with any relative path.
    let mut rel = String::new();
    for _ in 0..src.upto(4) {
        if !rel.is_empty() {
            rel.push('/');
        }
        rel.push_str(*src.pick(&["..", ".", "a", "b.c", "", "\u{e9}", "..", "x y"]));
        if rel.is_empty() {
            break;
        }
    }
    let mut joined = a.clone();
    for step in rel.split('/') {
        match step {
            "" | "." => (),
            ".." => {
                joined.pop();
            }
            it => joined.push(it.to_string()),
        }
    }
    eq("join", norm.join(&rel).normalize().as_os_str().to_str().unwrap().to_string(), abs(&joined))?;
    eq("VfsPath::join", v.join(&rel).map(|it| it.to_string()), Some(abs(&joined)))?;
    // An absolute path takes the place of the base.
    eq("join absolute", norm.join(other_text).as_os_str().to_str().unwrap(), other_text)?;
    eq("VfsPath::join absolute", v.join(other_text).map(|it| it.to_string()), Some(abs(&b)))?;
    // Names.
    let name = a.last().map(|it| split_name(it));
    let got = v.name_and_extension().map(|(n, e)| (n.to_string(), e.map(|it| it.to_string())));
    eq("name_and_extension", got, name.clone())?;
    eq("file_name", norm.file_name().and_then(|it| it.to_str()), a.last().map(|it| it.as_str()))?;
    eq(
        "file_stem",
        norm.file_stem().map(|it| it.to_str().unwrap().to_string()),
        name.as_ref().map(|it| it.0.clone()),
    )?;
    eq("extension", norm.extension().map(|it| it.to_str().unwrap().to_string()), name.and_then(|it| it.1))?;
    // Relative paths are not absolute ones.
    if let Some(tail) = text.strip_prefix('/') {
        if !tail.starts_with('/') {
            eq("relative", AbsPathBuf::try_from(tail).is_err(), true)?;
            eq("relative", <&AbsPath>::try_from(Path::new(tail)).is_err(), true)?;
            eq("relative", RelPathBuf::try_from(tail).is_ok(), true)?;
        }
    }
    eq("absolute", RelPathBuf::try_from(text).is_err(), true)?;
    Ok(())
}

fn check_virtual(src: &mut Src, ctx: &mut Ctx, a: &[String]) -> Res {
    if a.is_empty() {
        return Ok(());
    }
    let path = VfsPath::new_virtual_path(abs(a));
    let real = VfsPath::from(abs_buf(a));
    eq("virtual is not real", path == real, false)?;
    eq("virtual under real", path.starts_with(&real) || real.starts_with(&path), false)?;
    eq("as_path", path.as_path().is_none(), true)?;
    eq("display", path.to_string(), abs(a))?;
    let name = a.last().map(|it| split_name(it));
    let got = path.name_and_extension().map(|(n, e)| (n.to_string(), e.map(|it| it.to_string())));
    eq("virtual name_and_extension", got, name)?;
    // One trailing separator does not count, after two there is no name.
    let name = a.last().map(|it| split_name(it));
    for (tail, expected) in [("/", name), ("//", None)] {
        let dir = VfsPath::new_virtual_path(format!("{}{}", abs(a), tail));
        let got = dir.name_and_extension().map(|(n, e)| (n.to_string(), e.map(|it| it.to_string())));
        eq("virtual name_and_extension", got, expected)?;
    }
    // A virtual directory contains what is below it; the test compares text.
    for n in 1..=a.len() {
        let above = VfsPath::new_virtual_path(abs(&a[..n]));
        eq("virtual starts_with", path.starts_with(&above), true)?;
        eq("virtual starts_with", above.starts_with(&path), n == a.len())?;
    }
    let unrelated = VfsPath::new_virtual_path(format!("/\u{1}{}", abs(a)));
    eq("virtual starts_with", path.starts_with(&unrelated), false)?;
    // Parents, down to the virtual root.
    let mut p = path.clone();
    for n in (0..a.len()).rev() {
        let parent = p.parent();
        eq("virtual pop", p.pop(), true)?;
        eq("virtual parent", parent, Some(p.clone()))?;
        if n > 0 {
            eq("virtual popped", p.clone(), VfsPath::new_virtual_path(abs(&a[..n])))?;
        }
    }
    eq("virtual root has no parent", p.pop(), false)?;
    // Leading `..`, then `.`, then ordinary steps.
    let ups = src.upto(a.len() + 1);
    let dots = *src.pick(&[0, 0, 1, 2]);
    let mut tail = comps(src, 1, 3);
    tail.push(src.pick(WORDS).to_string());
    let rel = format!("{}{}{}", "../".repeat(ups), "./".repeat(dots), tail.join("/"));
    let expected = if ups > a.len() {
        None
    } else {
        let mut c = a[..a.len() - ups].to_vec();
        c.extend(tail);
        Some(VfsPath::new_virtual_path(abs(&c)))
    };
    ctx.class_if(expected.is_none(), "virtual join above the root");
    let all = "../".repeat(a.len() + 1 + src.upto(2));
    eq("virtual join above the root", path.join(&all), None)?;
    let got = path.join(&rel);
    if got != expected {
        return Err(format!("virtual join of {:?} and {:?}: {:?}, expected {:?}", abs(a), rel, got, expected));
    }
    Ok(())
}

pub static C14: Prop = Prop {
    id: "C14",
    rule: "a case is a pair of related absolute paths written with superfluous steps and separators, a relative \
           path, and the same as virtual paths; non-trivial: the first is not in normal form and not the root",
    assumptions: &["components contain no separator and no NUL; virtual prefix tests compare text, as documented"],
    cases: (800_000, 30_000_000),
    case: c14_case,
    ..PROP
};

// ---------------------------------------------------------------- C15

fn c15_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    const EXTS: &[&str] = &["move", "x", "b", "d", "rs", "c", "toml", "x y", "Move"];
    let mut extensions: Vec<String> = src.list(1, 4, |src| src.pick(EXTS).to_string());
    let long = src.chance(1, 30);
    if long {
        for i in 0..src.range(5, 100) {
            let at = src.upto(extensions.len());
            extensions.insert(at, format!("x{}", i));
        }
        ctx.class("long lists");
    }
    let mut known = vec![Key { real: true, comps: comps(src, 1, 3) }];
    let mut draw = |src: &mut Src, avg| -> Vec<Comps> {
        let (avg, most) = if long && src.bool() { (30, 100) } else { (avg, 12) };
        src.list(avg, most, |src| {
            let mut k = near(src, &known);
            k.real = true;
            known.push(k.clone());
            k.comps
        })
    };
    let include = draw(src, 2);
    let exclude = draw(src, 1);
    let mut queries = draw(src, 4);
    for q in queries.iter_mut() {
        if src.chance(2, 3) {
            let name = format!("{}.{}", src.pick(WORDS), src.pick(EXTS));
            if src.bool() {
                q.push(name);
            } else if let Some(last) = q.last_mut() {
                *last = name;
            }
        }
    }
    queries.extend(include.iter().cloned().chain(exclude.iter().cloned()));
    ctx.show(|| format!("extensions {:?} include {:?} exclude {:?} queries {:?}", extensions, include, exclude, queries));
    ctx.key(format!("{:?}{:?}{:?}{:?}", extensions, include, exclude, queries).as_bytes());
    let dirs = Directories {
        extensions: extensions.clone(),
        include: include.iter().map(|it| abs_buf(it)).collect(),
        exclude: exclude.iter().map(|it| abs_buf(it)).collect(),
    };
    let entry = Entry::Directories(dirs.clone());
    let files = Entry::Files(include.iter().map(|it| abs_buf(it)).collect());
    let mut yes = 0;
    let mut no = 0;
    for q in &queries {
        let path = abs_buf(q);
        let longest = |roots: &[Comps]| roots.iter().filter(|r| is_under(q, r)).map(|r| r.len()).max();
        let dir = match (longest(&include), longest(&exclude)) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(i), Some(e)) => i > e,
        };
        let ext = q.last().and_then(|it| split_name(it).1);
        let file = dir && ext.map_or(false, |it| extensions.contains(&it));
        for (what, got, expected) in [
            ("contains_file", no_panic("file", || dirs.contains_file(&path))?, file),
            ("contains_dir", no_panic("dir", || dirs.contains_dir(&path))?, dir),
            ("Entry::contains_file", entry.contains_file(&path), file),
            ("Entry::contains_dir", entry.contains_dir(&path), dir),
            ("listed file", files.contains_file(&path), include.contains(q)),
            ("listed dir", files.contains_dir(&path), false),
        ] {
            if got != expected {
                return Err(format!("{} {:?}: {}, expected {}", what, path, got, expected));
            }
        }
        if dir {
            yes += 1;
        } else {
            no += 1;
        }
    }
    ctx.nontrivial(yes > 0 && no > 0);
    Ok(())
}

pub static C15: Prop = Prop {
    id: "C15",
    rule: "a case is a list of extensions, included and excluded paths (nested, equal, similarly named) and up to \
           15 queried paths; non-trivial: some are selected and some are not",
    assumptions: &["the listed extensions are not empty; paths are in normal form"],
    cases: (800_000, 30_000_000),
    case: c15_case,
    ..PROP
};
