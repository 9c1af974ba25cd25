//! C25 (project discovery), C26 (manifests).
use std::collections::BTreeSet;
use std::fs;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

use paths::AbsPathBuf;
use project_model::{ProjectManifest, ProjectWorkspace};

use crate::engine::{no_panic, Ctx, Prop, Res, PROP};
use crate::src::Src;

/// A scratch directory, removed at the end.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(id: &str) -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("pbt-{}-{}-{}", id, std::process::id(), n));
        let _ = fs::remove_dir_all(&dir);
        fs::create_dir_all(&dir).unwrap();
        Scratch(dir)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------- C25

const DIRS: &[&str] = &[
    "a", "b", "ab", "c", "src", "a b", "\u{e9}", "A", "a.b", "z", ".a", ".git", "target", "node_modules", "build",
    "Dove", "Dove.toml.d", "_", "~", "%41", "0",
];

fn manifest_path(m: &ProjectManifest) -> PathBuf {
    match m {
        ProjectManifest::DoveToml(path) => AsRef::<Path>::as_ref(path).to_path_buf(),
    }
}

struct Tree {
    /// Folders, from the scratch folder itself, by their path.
    dirs: BTreeSet<PathBuf>,
    /// Folders that hold a manifest.
    manifests: BTreeSet<PathBuf>,
}

fn expected_discovery(tree: &Tree, folder: &Path) -> Result<BTreeSet<PathBuf>, ()> {
    let mut up = Some(folder);
    while let Some(dir) = up {
        if tree.manifests.contains(dir) {
            return Ok([dir.join("Dove.toml")].into_iter().collect());
        }
        up = dir.parent();
    }
    if !tree.dirs.contains(folder) {
        return Err(());
    }
    let subs = tree.manifests.iter().filter(|it| it.parent() == Some(folder));
    Ok(subs.map(|it| it.join("Dove.toml")).collect())
}

fn c25_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new("C25");
    // The top is a level below: its parent can hold a manifest as well.
    let mut tree = Tree { dirs: BTreeSet::new(), manifests: BTreeSet::new() };
    let mut dirs: Vec<PathBuf> = vec![scratch.0.clone()];
    let deep = src.chance(1, 12);
    for _ in 0..if deep { src.range(10, 40) } else { src.range(1, 8) } {
        let parent = if deep { dirs.last().unwrap().clone() } else { src.pick(&dirs).clone() };
        let dir = parent.join(src.pick(DIRS));
        if !dirs.contains(&dir) {
            fs::create_dir(&dir).map_err(|e| e.to_string())?;
            dirs.push(dir);
        }
    }
    let mut others = Vec::new();
    for dir in &dirs {
        if src.chance(1, if deep { 20 } else { 4 }) {
            let text: &[u8] = if src.bool() { b"[package]\n" } else { b"\xff broken" };
            fs::write(dir.join("Dove.toml"), text).map_err(|e| e.to_string())?;
            tree.manifests.insert(dir.clone());
        } else if src.chance(1, 4) {
            // Looks like one but is none.
            let name = *src.pick(&["dove.toml", "Move.toml", "Dove.toml.bak", "xDove.toml", "Dove.tom", "Cargo.toml", "a.move"]);
            fs::write(dir.join(name), b"[package]\n").map_err(|e| e.to_string())?;
            others.push(dir.join(name));
        } else if src.chance(1, 8) {
            std::os::unix::fs::symlink(scratch.0.join("nowhere"), dir.join("Dove.toml")).map_err(|e| e.to_string())?;
        }
    }
    tree.dirs = dirs.iter().cloned().collect();
    // A linked folder is a folder.
    let mut all = dirs.clone();
    if src.chance(1, 8) {
        let target = src.pick(&dirs).clone();
        let link = src.pick(&dirs).join("link");
        if std::os::unix::fs::symlink(&target, &link).is_ok() && !target.starts_with(&link) {
            if tree.manifests.contains(&target) {
                tree.manifests.insert(link.clone());
            }
            tree.dirs.insert(link.clone());
            ctx.class("linked folder");
            // Only the link itself is asked for: what is below it is reached by other names.
            let _ = link;
        }
    }
    // Folders that do not exist, files, manifests.
    for _ in 0..src.upto(2) {
        let base = src.pick(&dirs).clone();
        all.push(base.join("missing").join(src.pick(DIRS)));
    }
    all.extend(others.iter().cloned());
    ctx.show(|| format!("folders {:?}\nmanifests in {:?}\nother files {:?}", tree.dirs, tree.manifests, others));
    ctx.key(format!("{:?}{:?}{:?}", tree.dirs, tree.manifests, others).as_bytes());
    ctx.nontrivial(!tree.manifests.is_empty() && dirs.len() > 2);

    let abs = |p: &Path| AbsPathBuf::assert(p.to_path_buf());
    for folder in &all {
        let folder_abs = abs(folder);
        let expected = expected_discovery(&tree, folder);
        let got = no_panic("discover", || ProjectManifest::discover(&folder_abs))?;
        let got: Result<Vec<PathBuf>, String> =
            got.map(|it| it.iter().map(manifest_path).collect()).map_err(|e| e.to_string());
        let same = match (&got, &expected) {
            (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().cloned().collect::<BTreeSet<_>>() == *b,
            (Err(_), Err(())) => true,
            _ => false,
        };
        if !same {
            return Err(format!("discover in {:?}: {:?}, expected {:?}", folder, got, expected));
        }
        let single = no_panic("discover_single", || ProjectManifest::discover_single(&folder_abs))?;
        match (&single, &expected) {
            (Ok(it), Ok(set)) if set.len() == 1 && set.contains(&manifest_path(it)) => (),
            (Err(_), Ok(set)) if set.len() != 1 => (),
            (Err(_), Err(())) => (),
            _ => {
                let single = single.map(|it| manifest_path(&it)).map_err(|e| e.to_string());
                return Err(format!("discover_single in {:?}: {:?}, expected {:?}", folder, single, expected));
            }
        }
        ctx.class(match &expected {
            Err(()) => "unreadable folder",
            Ok(set) if set.is_empty() => "no manifest",
            Ok(set) if set.len() > 1 => "several manifests",
            Ok(set) if set.contains(&folder.join("Dove.toml")) => "manifest in the folder",
            Ok(set) if folder.starts_with(set.iter().next().unwrap().parent().unwrap()) => "manifest above",
            Ok(_) => "manifest below",
        });
    }
    // A manifest is its own project.
    for dir in &tree.manifests {
        let path = dir.join("Dove.toml");
        let got = ProjectManifest::discover(&abs(&path)).map_err(|e| e.to_string())?;
        if got.iter().map(manifest_path).collect::<Vec<_>>() != [path.clone()] {
            return Err(format!("discover at {:?}: {:?}", path, got));
        }
    }
    // Several folders, with repetitions.
    let (avg, most) = if src.chance(1, 10) { (20, 60) } else { (3, 6) };
    let mut folders: Vec<PathBuf> = src.list(avg, most, |src| src.pick(&all).clone());
    if most > 6 && src.bool() {
        // The ones that give something come last.
        folders.sort_by_key(|it| expected_discovery(&tree, it).map_or(0, |it| it.len()));
    }
    let abs_folders: Vec<AbsPathBuf> = folders.iter().map(|it| abs(it)).collect();
    let got: Vec<PathBuf> =
        no_panic("discover_all", || ProjectManifest::discover_all(&abs_folders))?.iter().map(manifest_path).collect();
    let mut set = BTreeSet::new();
    for folder in &folders {
        set.extend(expected_discovery(&tree, folder).unwrap_or_default());
    }
    let expected: Vec<PathBuf> = set.into_iter().collect();
    if got != expected {
        return Err(format!("discover_all of {:?}: {:?}, expected {:?}", folders, got, expected));
    }
    // Accepting a manifest is by its name.
    for path in all.iter().cloned().chain(all.iter().map(|it| it.join("Dove.toml"))).chain(Some("/".into())) {
        let ok = no_panic("from_manifest_file", || ProjectManifest::from_manifest_file(abs(&path)))?;
        let expected = path.file_name().map_or(false, |it| it == "Dove.toml");
        match ok {
            Ok(it) if expected && manifest_path(&it) == path => (),
            Err(_) if !expected => (),
            it => return Err(format!("from_manifest_file {:?}: {:?}", path, it.map(|it| manifest_path(&it)).map_err(|e| e.to_string()))),
        }
    }
    Ok(())
}

/// Runs as a process of its own with `args[0]` as its root: discovers from the folders that follow.
pub fn rooted(args: &[String]) -> ! {
    let dir = std::ffi::CString::new(args[0].as_str()).unwrap();
    // A user namespace of its own gives the right to change the root.
    let ok = unsafe { libc::unshare(libc::CLONE_NEWUSER) == 0 && libc::chroot(dir.as_ptr()) == 0 };
    if !ok || std::env::set_current_dir("/").is_err() {
        std::process::exit(99);
    }
    for folder in &args[1..] {
        let got = ProjectManifest::discover(&AbsPathBuf::assert(folder.into()));
        let mut got: Vec<String> = match got {
            Ok(it) => it.iter().map(|it| manifest_path(it).display().to_string()).collect(),
            Err(_) => vec!["error".into()],
        };
        got.sort();
        println!("{}", got.join(" "));
    }
    std::process::exit(0);
}

/// Manifests in the root of the file system and next to it, and very wide folders.
fn c25_fixed(i: u64, ctx: &mut Ctx) -> Res {
    let scratch = Scratch::new("C25");
    let top = &scratch.0;
    ctx.show(|| format!("fixed {}", i));
    let make = |p: &str| fs::create_dir_all(top.join(p)).map_err(|e| e.to_string());
    let put = |p: &str| fs::write(top.join(p), "[package]\n").map_err(|e| e.to_string());
    if i == 4 {
        let n = 700;
        for j in 0..n {
            make(&format!("w/d{}", j))?;
            put(&format!("w/d{}/Dove.toml", j))?;
        }
        let got = ProjectManifest::discover_all(&[AbsPathBuf::assert(top.join("w"))]);
        let mut expected: Vec<PathBuf> = (0..n).map(|j| top.join(format!("w/d{}/Dove.toml", j))).collect();
        expected.sort();
        ctx.nontrivial(true);
        return match got.iter().map(manifest_path).collect::<Vec<_>>() == expected {
            true => Ok(()),
            false => Err(format!("{} of {} manifests in direct subfolders", got.len(), n)),
        };
    }
    make("a/b/c")?;
    make("d")?;
    let (asked, expected): (&[&str], &[&str]) = match i {
        0 => {
            put("Dove.toml")?;
            put("d/Dove.toml")?;
            (&["/", "/a", "/a/b/c", "/none", "/d"], &["/Dove.toml", "/Dove.toml", "/Dove.toml", "/Dove.toml", "/d/Dove.toml"])
        }
        1 => {
            put("a/Dove.toml")?;
            put("d/Dove.toml")?;
            put("a/b/c/Dove.toml")?;
            (
                &["/", "/a", "/a/b", "/a/b/c", "/d"],
                &["/a/Dove.toml /d/Dove.toml", "/a/Dove.toml", "/a/Dove.toml", "/a/b/c/Dove.toml", "/d/Dove.toml"],
            )
        }
        2 => {
            put("a/b/Dove.toml")?;
            (&["/", "/a", "/d", "/none", "/a/none"], &["", "/a/b/Dove.toml", "", "error", "error"])
        }
        _ => (&["/", "/a", "/x/y"], &["", "", "error"]),
    };
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let out = std::process::Command::new(exe).arg("--rooted").arg(top).args(asked).output().map_err(|e| e.to_string())?;
    if out.status.code() == Some(99) {
        ctx.class("no user namespace");
        return Ok(());
    }
    ctx.nontrivial(true);
    ctx.class("file system root");
    let got = String::from_utf8_lossy(&out.stdout);
    let got: Vec<&str> = got.lines().collect();
    if got != expected {
        return Err(format!("discover in {:?}: {:?}, expected {:?}", asked, got, expected));
    }
    Ok(())
}

pub static C25: Prop = Prop {
    id: "C25",
    rule: "a case is a real directory tree in a scratch folder with manifests, look-alikes, dangling and folder \
           links, asked from every folder, from missing folders, from files and from lists of them; fixed cases \
           have it as the root of the file system (a process in a user namespace) and 700 subfolders; \
           non-trivial: it has a manifest and at least three folders",
    assumptions: &[
        "the folders above the scratch folder hold no manifest; folder paths are in normal form",
        "unreadable folders are missing ones or files (the check runs as root)",
    ],
    cases: (24_000, 400_000),
    case: c25_case,
    fixed: Some((|_| 5, c25_fixed)),
    ..PROP
};

// ---------------------------------------------------------------- C26

const KNOWN: &[&str] = &["name", "account_address", "dove_version", "dialect"];

fn value(src: &mut Src) -> String {
    if src.chance(1, 4) {
        return src
            .list(6, 20, |src| match src.below(4) {
                0 => *src.pick(&['"', '\\', '\'', '\n', '\t', '\u{8}', '\u{c}', '\r', '\u{7f}', '\u{1}', '#', '=', '[']),
                1 => *src.pick(&['\u{e9}', '\u{4e16}', '\u{1F600}', '\u{feff}', '\u{2028}']),
                _ => (b' ' + src.below(95) as u8) as char,
            })
            .into_iter()
            .collect();
    }
    src.pick(&["move_project", "0x1", "pont", "diem", "", "0.11.0", "a b", "true", "1", "# no comment", "[package]", "\u{e9}"]).to_string()
}

/// The string in one of the notations that can express it.
fn toml_string(src: &mut Src, s: &str, multi_line: bool) -> String {
    let control = |c: char| (c < ' ' && c != '\t') || c == '\u{7f}';
    match src.below(4) {
        1 if !s.contains('\'') && !s.chars().any(control) => return format!("'{}'", s),
        2 if multi_line && !s.contains("'") && !s.chars().any(|c| control(c) && c != '\n') => {
            return format!("'''\n{}'''", s)
        }
        3 if multi_line => {
            let mut out = "\"\"\"\n".to_string();
            for c in s.chars() {
                match c {
                    '\n' => out.push('\n'),
                    c => escape(src, c, &mut out),
                }
            }
            if src.chance(1, 4) {
                out.push_str("\\\n   ");
            }
            out.push_str("\"\"\"");
            return out;
        }
        _ => (),
    }
    let mut out = "\"".to_string();
    for c in s.chars() {
        escape(src, c, &mut out);
    }
    out.push('"');
    out
}

fn escape(src: &mut Src, c: char, out: &mut String) {
    match c {
        '"' => out.push_str("\\\""),
        '\\' => out.push_str("\\\\"),
        '\n' => out.push_str("\\n"),
        '\r' => out.push_str("\\r"),
        '\u{8}' => out.push_str("\\b"),
        '\u{c}' => out.push_str("\\f"),
        '\t' if src.bool() => out.push_str("\\t"),
        c if (c < ' ' && c != '\t') || c == '\u{7f}' => out.push_str(&format!("\\u{:04X}", c as u32)),
        c if src.chance(1, 12) => out.push_str(&format!("\\U{:08X}", c as u32)),
        c => out.push(c),
    }
}

fn toml_key(src: &mut Src, k: &str) -> String {
    match src.weighted(&[6, 1, 1]) {
        1 => format!("\"{}\"", k),
        2 => format!("'{}'", k),
        _ => k.to_string(),
    }
}

const OTHER_VALUES: &[&str] = &[
    "1", "true", "-0.5", "1979-05-27T07:32:00Z", "[1, 2]", "[\"a\", \"b\"]", "{ a = 1 }", "\"text\"", "'x'", "[]",
    "0xff", "1_000", "inf", "{}", "[ [1], [\"a\"] ]",
];

fn gap(src: &mut Src) -> &'static str {
    *src.pick(&["\n", "\n\n", "  # comment \u{e9}\n", "\r\n", "\t\n"])
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Fault {
    None,
    NotAString,
    NoPackage,
    PackageNotATable,
    BadToml,
    BadUtf8,
    Missing,
    IsFolder,
}

fn c26_case(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut values: Vec<(usize, String)> = Vec::new();
    let mut order: Vec<usize> = (0..KNOWN.len()).collect();
    src.shuffle(&mut order);
    for k in order {
        if src.chance(2, 3) {
            values.push((k, value(src)));
        }
    }
    use Fault::*;
    let mut fault = *src.pick(&[None, None, None, None, NotAString, NoPackage, PackageNotATable, BadToml, BadUtf8, Missing, IsFolder]);
    let mut text = String::new();
    let table = |src: &mut Src, text: &mut String, name: &str| {
        text.push_str(&format!("[{}]{}", name, gap(src)));
        for i in 0..src.upto(2) {
            text.push_str(&format!("other{} = {}{}", i, src.pick(OTHER_VALUES), gap(src)));
        }
    };
    // Keys and tables that mean nothing here.
    for i in 0..src.upto(2) {
        text.push_str(&format!("top{} = {}{}", i, src.pick(OTHER_VALUES), gap(src)));
    }
    let bad = if fault == NotAString {
        if values.is_empty() {
            values.push((0, String::new()));
        }
        Some(src.index(values.len()))
    } else {
        Option::None
    };
    let mut entries: Vec<(String, usize)> = Vec::new();
    let style = src.weighted(&[6, 2, 2]);
    for (i, (k, v)) in values.iter().enumerate() {
        let v = if bad == Some(i) {
            // An array of one string is still no string.
            src.pick(&["1", "true", "[\"a\"]", "{ a = \"b\" }", "1.5", "1979-05-27"]).to_string()
        } else {
            toml_string(src, v, style != 1)
        };
        entries.push((format!("{} = {}", toml_key(src, KNOWN[*k]), v), i));
    }
    for i in 0..src.upto(2) {
        let name = *src.pick(&[
            "authors", "Name", "name_", "account-address", "dove", "version", "address", "dove-version", "doveVersion",
            "accountAddress", "NAME", "Dialect", "title", "move_version", "blockchain_api", "sender", "dialects",
        ]);
        let at = src.upto(entries.len());
        // The plain name once at most.
        let name = if i == 0 && src.chance(2, 3) { name.to_string() } else { format!("{}{}", name, i) };
        entries.insert(at, (format!("{} = {}", name, src.pick(OTHER_VALUES)), 99));
    }
    let entries: Vec<String> = entries.into_iter().map(|it| it.0).collect();
    if fault == NoPackage {
        // The values are somewhere else.
        let name = *src.pick(&["packages", "Package", "other.package", "project", "package_"]);
        text.push_str(&format!("[{}]\n{}\n", name, entries.join("\n")));
    } else if fault == PackageNotATable {
        text.push_str(&format!("package = {}\n", src.pick(&["1", "\"name\"", "true", "1.5"])));
    } else {
        match style {
            0 => {
                if src.bool() {
                    table(src, &mut text, "first");
                }
                let name = *src.pick(&["package", "package", "package", " package ", "\"package\""]);
                text.push_str(&format!("[{}]{}", name, gap(src)));
                for e in &entries {
                    text.push_str(e);
                    text.push_str(gap(src));
                }
                for name in ["dependencies", "package.metadata", "layout"] {
                    if src.chance(1, 3) {
                        table(src, &mut text, name);
                    }
                }
                if src.chance(1, 4) {
                    text.push_str("[[list]]\na = 1\n[[list]]\n");
                }
            }
            1 => text.push_str(&format!("package = {{ {} }}{}", entries.join(", "), gap(src))),
            _ if entries.is_empty() => text.push_str("package = {}\n"),
            _ => {
                for e in &entries {
                    text.push_str(&format!("package.{}{}", e, gap(src)));
                }
            }
        }
    }
    let mut bytes = text.clone().into_bytes();
    match fault {
        BadToml => {
            // Put before everything, after everything, or on a line between.
            let junk = *src.pick(&[
                "= 1\n", "[package\n", "a = \"open\n", "a b = 1\n", "]\n", "x = \n", "\u{1}\n", "\0", "\u{c}\n", "\u{b}",
                "\u{a0}\n", "\u{2028}", "\r", "// c\n", "; c\n", "{}\n", "\u{7f}", "# \u{1}\n",
            ]);
            if src.bool() {
                bytes.splice(0..0, junk.bytes());
            } else {
                bytes.extend(b"\n");
                bytes.extend(junk.bytes());
            }
        }
        BadUtf8 => {
            let at = src.upto(bytes.len());
            // In a comment or not: it is no text at all.
            bytes.splice(at..at, [0xff]);
            if src.bool() {
                bytes = b"# \xff\n".iter().copied().chain(text.bytes()).collect();
            }
        }
        _ => (),
    }
    if fault == None && src.chance(1, 8) {
        // Without the final line end.
        while bytes.last() == Some(&b'\n') || bytes.last() == Some(&b'\r') {
            bytes.pop();
        }
    }
    let scratch = Scratch::new("C26");
    let folder = scratch.0.join(src.pick(DIRS));
    fs::create_dir(&folder).map_err(|e| e.to_string())?;
    let path = folder.join("Dove.toml");
    match fault {
        Missing => (),
        IsFolder => fs::create_dir(&path).map_err(|e| e.to_string())?,
        _ => fs::write(&path, &bytes).map_err(|e| e.to_string())?,
    }
    ctx.show(|| format!("{:?}\n{}", fault, String::from_utf8_lossy(&bytes)));
    ctx.key(&bytes);
    ctx.nontrivial(!values.is_empty() || fault != None);
    ctx.class(match fault {
        None => "well-formed",
        NotAString => "entry that is no string",
        NoPackage => "no package table",
        PackageNotATable => "package is no table",
        BadToml => "broken TOML",
        BadUtf8 => "not UTF-8",
        Missing => "missing file",
        IsFolder => "a folder",
    });
    if fault == NotAString && bad.is_none() {
        fault = None;
    }
    let manifest = ProjectManifest::from_manifest_file(AbsPathBuf::assert(path.clone())).map_err(|e| e.to_string())?;
    let got = no_panic("load", || ProjectWorkspace::load(manifest))?;
    match (got, fault) {
        (Ok(ProjectWorkspace::Dove { dove_toml }), None) => {
            let p = dove_toml.package;
            let got = [p.name, p.account_address, p.dove_version, p.dialect];
            for (k, name) in KNOWN.iter().enumerate() {
                let expected = values.iter().find(|it| it.0 == k).map(|it| it.1.clone());
                if got[k] != expected {
                    return Err(format!("{} is {:?}, expected {:?}", name, got[k], expected));
                }
            }
        }
        (Ok(_), None) => return Err("not a project".into()),
        (Ok(_), fault) => return Err(format!("{:?}: loaded", fault)),
        (Err(e), None) => return Err(format!("not loaded: {:#}", e)),
        (Err(e), _) => {
            let message = format!("{:#}", e);
            if !message.contains(path.to_str().unwrap()) {
                return Err(format!("the error does not name the file: {}", message));
            }
        }
    }
    // Detached files are kept as they are.
    let files: Vec<AbsPathBuf> = src.list(1, 3, |src| AbsPathBuf::assert(folder.join(src.pick(DIRS))));
    match ProjectWorkspace::load_detached_files(files.clone()) {
        Ok(ProjectWorkspace::DetachedFiles { files: got }) if got == files => Ok(()),
        _ => Err("detached files".into()),
    }
}

pub static C26: Prop = Prop {
    id: "C26",
    rule: "a case is a manifest file with the known entries in any order and any TOML notation among unknown keys \
           and tables, or with one of seven faults; non-trivial: it has a known entry or a fault",
    assumptions: &["TOML as the toml crate (0.5) reads it; manifests with the same unknown key twice are not judged"],
    cases: (24_000, 1_000_000),
    case: c26_case,
    ..PROP
};
