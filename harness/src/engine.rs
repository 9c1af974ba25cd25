//! Runs one property: generation, counting, shrinking, crash and hang diagnosis, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, SeekFrom, Write};
use std::os::unix::process::CommandExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::src::{hash_bytes, mix, Src};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn get() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What a case tells the engine about itself.
#[derive(Default)]
pub struct Ctx {
    pub want_show: bool,
    nontrivial: bool,
    key: Option<u64>,
    shown: Vec<String>,
    classes: Vec<&'static str>,
    counts: Vec<(&'static str, u64)>,
}

impl Ctx {
    pub fn nontrivial(&mut self, yes: bool) {
        self.nontrivial |= yes;
    }
    /// The input itself, for counting distinct ones.
    pub fn key(&mut self, bytes: &[u8]) {
        self.key = Some(hash_bytes(bytes) ^ self.key.unwrap_or(0).rotate_left(1));
    }
    pub fn show(&mut self, f: impl FnOnce() -> String) {
        if EAGER_SHOW.load(Ordering::Relaxed) {
            println!("{}", f());
        } else if self.want_show {
            self.shown.push(f());
        }
    }
    pub fn class(&mut self, name: &'static str) {
        self.classes.push(name);
    }
    pub fn class_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.classes.push(name);
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        self.counts.push((name, n));
    }
}

/// A finding that is recorded and not repaired: one specific input.
pub struct Probe {
    pub id: &'static str,
    /// Whether the recorded failure still occurs. May crash: it runs in a process of its own, and a
    /// crash counts as `true` if `crash` is set.
    pub fails: fn() -> bool,
    pub crash: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Random cases in the quick and in the thorough tier.
    pub cases: (u64, u64),
    pub case: fn(&mut Src, &mut Ctx) -> Res,
    /// Fixed cases (regression inputs, exhaustive enumerations): their number and how to run one.
    pub fixed: Option<(fn(Tier) -> u64, fn(u64, &mut Ctx) -> Res)>,
    pub probes: &'static [Probe],
    pub stack: usize,
    pub threads: usize,
    /// CPU (or, for a blocked case, wall) seconds that a single case may take.
    pub case_secs: u64,
}

pub const PROP: Prop = Prop {
    id: "",
    rule: "",
    assumptions: &[],
    cases: (0, 0),
    case: |_, _| Ok(()),
    fixed: None,
    probes: &[],
    stack: 8 << 20,
    threads: 8,
    case_secs: 30,
};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = match info.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => match info.payload().downcast_ref::<String>() {
                Some(s) => s.clone(),
                None => "panic".to_string(),
            },
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|it| *it.borrow_mut() = Some(format!("panicked: {} at {}", msg, loc)));
    }));
}

/// Runs code that may panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let msg = LAST_PANIC.with(|it| it.borrow_mut().take()).unwrap_or("panicked".into());
        format!("{}: {}", what, msg)
    })
}

#[derive(Clone, Debug)]
pub enum CaseRef {
    Fixed(u64),
    Tape(Vec<u64>),
}

impl CaseRef {
    fn to_json(&self) -> Value {
        match self {
            CaseRef::Fixed(i) => json!({ "fixed": i }),
            CaseRef::Tape(tape) => json!({ "tape": tape }),
        }
    }
    fn from_json(v: &Value) -> CaseRef {
        match v.get("fixed") {
            Some(i) => CaseRef::Fixed(i.as_u64().unwrap()),
            None => CaseRef::Tape(
                v["tape"].as_array().unwrap().iter().map(|it| it.as_u64().unwrap()).collect(),
            ),
        }
    }
}

fn run_fixed(prop: &Prop, i: u64, ctx: &mut Ctx) -> Res {
    let f = prop.fixed.unwrap().1;
    no_panic("case", || f(i, ctx)).and_then(|r| r)
}

fn run_src(prop: &Prop, src: &mut Src, ctx: &mut Ctx) -> Res {
    no_panic("case", || (prop.case)(src, ctx)).and_then(|r| r)
}

fn run_ref(prop: &Prop, case: &CaseRef, ctx: &mut Ctx) -> Res {
    match case {
        CaseRef::Fixed(i) => run_fixed(prop, *i, ctx),
        CaseRef::Tape(tape) => run_src(prop, &mut Src::replay(tape), ctx),
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|it| it.parse().ok()).unwrap_or(1)
}

fn case_seed(prop: &Prop, index: u64) -> u64 {
    mix(mix(seed()) ^ hash_bytes(prop.id.as_bytes()) ^ mix(index))
}

/// Candidates for a smaller tape, in passes; `fails` must be deterministic enough.
fn shrink(tape: Vec<u64>, budget: Duration, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let start = Instant::now();
    let mut best = tape;
    let smaller = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    let mut progress = true;
    while progress && start.elapsed() < budget {
        progress = false;
        for size in [256, 64, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                match fails(&cand) {
                    Some(used) if smaller(&used, &best) => {
                        best = used;
                        progress = true;
                    }
                    _ => i += if size > 8 { size / 2 } else { 1 },
                }
            }
        }
        for size in [16, 4, 2] {
            let mut i = 0;
            while i + size <= best.len() && start.elapsed() < budget {
                if best[i..i + size].iter().any(|it| *it != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].fill(0);
                    if let Some(used) = fails(&cand) {
                        if smaller(&used, &best) {
                            best = used;
                            progress = true;
                        }
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() && start.elapsed() < budget {
            let v = best[i];
            for new in [0, 1, v / 2, v.saturating_sub(1)] {
                if i >= best.len() || new >= best[i] {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = new;
                if let Some(used) = fails(&cand) {
                    if smaller(&used, &best) {
                        best = used;
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    counts: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Stats {
    fn add(&mut self, index: u64, key: u64, ctx: Ctx) {
        self.evaluations += 1;
        if ctx.nontrivial {
            self.nontrivial.insert(ctx.key.unwrap_or(key));
        }
        for c in ctx.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        for (c, n) in ctx.counts {
            *self.counts.entry(c).or_default() += n;
        }
        if ctx.want_show && ctx.nontrivial && self.samples.len() < 4 {
            let mut text = ctx.shown.join("\n");
            if text.len() > 1500 {
                let mut end = 1500;
                while !text.is_char_boundary(end) {
                    end -= 1;
                }
                text.truncate(end);
                text.push('…');
            }
            self.samples.push(json!({ "case": index, "input": text }));
        }
    }
    fn merge(&mut self, other: Stats) {
        self.evaluations += other.evaluations;
        self.nontrivial.extend(other.nontrivial);
        for (k, v) in other.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for (k, v) in other.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.samples.extend(other.samples);
    }
}

struct Found {
    case: CaseRef,
    message: String,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn worker(prop: &'static Prop, progress: &Path, out: &Path) -> i32 {
    install_panic_hook();
    let tier = Tier::get();
    let n_fixed = prop.fixed.map_or(0, |(n, _)| n(tier));
    let n_random = tier.pick(prop.cases.0, prop.cases.1);
    let n_random = match std::env::var("VERIF_CASES").ok().and_then(|it| it.parse().ok()) {
        Some(n) => n,
        None => n_random,
    };
    let total = n_fixed + n_random;
    let cap = Duration::from_secs(tier.pick(150, 3 * 3600));
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Vec<(u64, Found)>> = Mutex::new(Vec::new());
    let stats = Mutex::new(Stats::default());
    let chunk = (total / (prop.threads as u64 * 64)).clamp(1, 64);
    // A few of the random cases are rendered as samples.
    let is_sample = |i: u64| i >= n_fixed && (i - n_fixed) % (n_random / 12 + 1) == n_random / 24;

    std::thread::scope(|scope| {
        for t in 0..prop.threads {
            let (next, stop, found, stats) = (&next, &stop, &found, &stats);
            let body = move || {
                let mut file =
                    std::fs::OpenOptions::new().write(true).open(progress).expect("progress file");
                let mut local = Stats::default();
                'outer: loop {
                    let from = next.fetch_add(chunk, Ordering::Relaxed);
                    if from >= total {
                        break;
                    }
                    for i in from..(from + chunk).min(total) {
                        if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                            break 'outer;
                        }
                        file.seek(SeekFrom::Start(t as u64 * 8)).unwrap();
                        file.write_all(&(i + 1).to_le_bytes()).unwrap();
                        let mut ctx = Ctx { want_show: is_sample(i), ..Ctx::default() };
                        let (res, key, case) = if i < n_fixed {
                            (run_fixed(prop, i, &mut ctx), mix(i), CaseRef::Fixed(i))
                        } else {
                            let mut src = Src::random(case_seed(prop, i - n_fixed));
                            let res = run_src(prop, &mut src, &mut ctx);
                            let key = src.used_hash();
                            let case =
                                if res.is_err() { CaseRef::Tape(src.used()) } else { CaseRef::Fixed(0) };
                            (res, key, case)
                        };
                        local.add(i, key, ctx);
                        if let Err(message) = res {
                            stop.store(true, Ordering::Relaxed);
                            found.lock().unwrap().push((i, Found { case, message }));
                            break 'outer;
                        }
                    }
                }
                file.seek(SeekFrom::Start(t as u64 * 8)).unwrap();
                file.write_all(&0u64.to_le_bytes()).unwrap();
                stats.lock().unwrap().merge(local);
            };
            std::thread::Builder::new().stack_size(prop.stack).spawn_scoped(scope, body).unwrap();
        }
    });

    let stats = stats.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|it| it.0);
    let violation = found.into_iter().next().map(|(_, found)| {
        std::thread::scope(|scope| {
            let body = || shrink_found(prop, found);
            let thread = std::thread::Builder::new().stack_size(prop.stack);
            thread.spawn_scoped(scope, body).unwrap().join().unwrap()
        })
    });
    let complete = stats.evaluations >= total;
    let mut samples = stats.samples;
    samples.sort_by_key(|it| it["case"].as_u64());
    samples.truncate(6);
    let result = json!({
        "evaluations": stats.evaluations,
        "distinct_nontrivial": stats.nontrivial.len(),
        "fixed_cases": n_fixed.min(stats.evaluations),
        "complete": complete,
        "classes": stats.classes,
        "counts": stats.counts,
        "samples": samples,
        "violation": violation,
    });
    std::fs::write(out, serde_json::to_string(&result).unwrap()).unwrap();
    0
}

/// Shrinks a failing case in this process and renders it.
fn shrink_found(prop: &Prop, found: Found) -> Value {
    let case = match found.case {
        CaseRef::Tape(tape) => {
            let budget = Duration::from_secs(25);
            CaseRef::Tape(shrink(tape, budget, |cand| {
                let mut src = Src::replay(cand);
                run_src(prop, &mut src, &mut Ctx::default()).err().map(|_| src.used())
            }))
        }
        fixed => fixed,
    };
    let mut ctx = Ctx { want_show: true, ..Ctx::default() };
    let message = match run_ref(prop, &case, &mut ctx) {
        Err(message) => message,
        // Depends on timing: keep the original report.
        Ok(()) => format!("{} (not reproduced by every run)", found.message),
    };
    json!({ "case": case.to_json(), "message": message, "input": ctx.shown.join("\n") })
}

enum Outcome {
    Passed,
    Failed(String),
    Crashed(String),
    Hung,
}

/// Ends the process and those that it started.
fn kill_group(child: &mut std::process::Child) {
    unsafe { libc::kill(-(child.id() as i32), libc::SIGKILL) };
    let _ = child.wait();
}

/// Runs one case in a child process of its own.
fn run_alone(prop: &Prop, case: &CaseRef) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let file = std::env::temp_dir().join(format!("pbt-{}-{}.case", prop.id, std::process::id()));
    std::fs::write(&file, serde_json::to_string(&case.to_json()).unwrap()).unwrap();
    let mut child = Command::new(exe)
        .args([prop.id, "--alone"])
        .arg(&file)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .process_group(0)
        .spawn()
        .unwrap();
    let start = Instant::now();
    let wall = Duration::from_secs(prop.case_secs * 4);
    let status = loop {
        if let Some(status) = child.try_wait().unwrap() {
            break status;
        }
        if start.elapsed() > wall {
            kill_group(&mut child);
            let _ = std::fs::remove_file(&file);
            return Outcome::Hung;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let _ = std::fs::remove_file(&file);
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).ok();
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(0), _) => Outcome::Passed,
        (Some(1), _) => Outcome::Failed(out.trim().to_string()),
        (_, Some(libc::SIGXCPU)) => Outcome::Hung,
        _ => Outcome::Crashed(format!("the process died ({})", status)),
    }
}

fn alone(prop: &'static Prop, file: &str) -> i32 {
    install_panic_hook();
    let limit = libc::rlimit { rlim_cur: prop.case_secs, rlim_max: prop.case_secs + 5 };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &limit) };
    let case = CaseRef::from_json(&serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap());
    let thread = std::thread::Builder::new().stack_size(prop.stack);
    let res = thread.spawn(move || run_ref(prop, &case, &mut Ctx::default())).unwrap().join();
    match res {
        Ok(Ok(())) => 0,
        Ok(Err(message)) => {
            println!("{}", message);
            1
        }
        Err(_) => 1,
    }
}

fn replay(prop: &'static Prop, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let case = CaseRef::from_json(&v["case"]);
    match run_alone(prop, &case) {
        Outcome::Passed => {
            println!("passed");
            0
        }
        Outcome::Failed(m) | Outcome::Crashed(m) => {
            println!("{}\n{}", m, v["input"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", prop.id, file);
            1
        }
        Outcome::Hung => {
            println!("does not terminate\n{}", v["input"].as_str().unwrap_or(""));
            println!("VIOLATION property={} replay={}", prop.id, file);
            1
        }
    }
}

fn show(prop: &'static Prop, case: &CaseRef) -> String {
    // The case runs up to the crash, so do it in a child as well.
    let exe = std::env::current_exe().unwrap();
    let file = std::env::temp_dir().join(format!("pbt-{}-{}.show", prop.id, std::process::id()));
    std::fs::write(&file, serde_json::to_string(&case.to_json()).unwrap()).unwrap();
    let shown = file.with_extension("shown");
    let child = Command::new(exe)
        .args([prop.id, "--show"])
        .arg(&file)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&shown).unwrap())
        .stderr(Stdio::null())
        .process_group(0)
        .spawn();
    if let Ok(mut child) = child {
        // The case may block for ever.
        let start = Instant::now();
        while child.try_wait().map_or(true, |it| it.is_none()) && start.elapsed().as_secs() < prop.case_secs.min(20) {
            std::thread::sleep(Duration::from_millis(20));
        }
        // With the processes that the case started.
        kill_group(&mut child);
    }
    let out = std::fs::read(&shown).map(|it| String::from_utf8_lossy(&it).into_owned()).unwrap_or_default();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&shown);
    out
}

fn supervisor(prop: &'static Prop) -> i32 {
    let start = Instant::now();
    let tier = Tier::get();
    let dir = verif_dir();
    let tmp = std::env::temp_dir();
    let progress = tmp.join(format!("pbt-{}-{}.progress", prop.id, std::process::id()));
    let out = tmp.join(format!("pbt-{}-{}.out", prop.id, std::process::id()));
    std::fs::write(&progress, vec![0u8; prop.threads * 8]).unwrap();
    let _ = std::fs::remove_file(&out);

    let mut violation: Option<Value> = None;
    let mut known = Vec::new();
    let findings = known_findings(&dir, prop.id);
    for probe in prop.probes {
        let exe = std::env::current_exe().unwrap();
        let status = Command::new(exe)
            .args([prop.id, "--probe", probe.id])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .status()
            .unwrap();
        let fails = match status.code() {
            Some(0) => false,
            Some(10) => true,
            _ => probe.crash,
        };
        if fails {
            match findings.iter().find(|it| it["id"] == probe.id) {
                Some(it) => known.push(it["what"].as_str().unwrap_or(probe.id).to_string()),
                None => {
                    violation = Some(json!({
                        "case": { "probe": probe.id }, "message": "recorded failure", "input": probe.id
                    }))
                }
            }
        }
    }

    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new(exe)
        .args([prop.id, "--worker"])
        .arg(&progress)
        .arg(&out)
        .stdin(Stdio::null())
        .stdout(if std::env::var("VERIF_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .stderr(if std::env::var("VERIF_DEBUG").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .process_group(0)
        .spawn()
        .unwrap();
    let mut last = Vec::new();
    let mut last_change = vec![Instant::now(); prop.threads];
    let stall = Duration::from_secs(prop.case_secs * 2);
    let status = loop {
        if let Some(status) = child.try_wait().unwrap() {
            break Some(status);
        }
        std::thread::sleep(Duration::from_millis(20));
        let now = in_flight(&progress);
        if last.len() != now.len() {
            last = now.clone();
        }
        for t in 0..now.len() {
            if now[t] != last[t] || now[t] == 0 {
                last[t] = now[t];
                last_change[t] = Instant::now();
            }
        }
        if last_change.iter().any(|it| it.elapsed() > stall) {
            kill_group(&mut child);
            break None;
        }
    };

    let result: Option<Value> =
        std::fs::read_to_string(&out).ok().and_then(|it| serde_json::from_str(&it).ok());
    let mut error = None;
    let mut coverage = json!({ "evaluations": 0, "distinct_nontrivial": 0, "rule": prop.rule, "samples": [] });
    match result {
        Some(result) if status.map_or(false, |it| it.success()) => {
            coverage = json!({
                "evaluations": result["evaluations"],
                "distinct_nontrivial": result["distinct_nontrivial"],
                "rule": prop.rule,
                "samples": result["samples"],
                "fixed_cases": result["fixed_cases"],
                "complete": result["complete"],
                "classes": result["classes"],
                "counts": result["counts"],
            });
            if !result["violation"].is_null() {
                violation = Some(result["violation"].clone());
            } else if result["evaluations"].as_u64().unwrap_or(0) == 0 && violation.is_none() {
                error = Some("no case was evaluated".to_string());
            }
        }
        _ => match diagnose(prop, &progress, tier) {
            Some(v) => {
                coverage["evaluations"] = json!(1);
                violation = Some(v)
            }
            None => {
                error = Some(format!(
                    "the worker {} and no case in flight does so alone",
                    if status.is_none() { "stalled" } else { "died" }
                ))
            }
        },
    }
    let _ = std::fs::remove_file(&progress);
    let _ = std::fs::remove_file(&out);

    for what in &known {
        println!("KNOWN-FINDING: property={} {}", prop.id, what);
    }
    let mut evidence = json!({
        "property": prop.id,
        "tier": tier.pick("quick", "thorough"),
        "seed": seed(),
        "level": "exploration",
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    if !known.is_empty() {
        evidence["coverage"]["known_findings"] = json!(known);
    }
    let _ = std::fs::create_dir_all(dir.join("evidence"));
    let path = dir.join("evidence").join(format!("{}.json", prop.id));
    std::fs::write(path, serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();

    if let Some(v) = violation {
        let _ = std::fs::create_dir_all(dir.join("replays"));
        let hash = hash_bytes(v.to_string().as_bytes()) as u32;
        let name = format!("replays/{}-{:08x}.json", prop.id, hash);
        let mut v = v;
        v["property"] = json!(prop.id);
        std::fs::write(dir.join(&name), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("{}", v["message"].as_str().unwrap_or(""));
        println!("{}", v["input"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop.id, name);
        return 1;
    }
    if let Some(error) = error {
        println!("ERROR: {}", error);
        return 3;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1} s",
        prop.id,
        evidence["coverage"]["evaluations"],
        evidence["coverage"]["distinct_nontrivial"],
        start.elapsed().as_secs_f64()
    );
    0
}

/// Coverage-guided search, after the random cases of the thorough tier.
fn guided(prop: &'static Prop, secs: u64) -> i32 {
    const WORKERS: u64 = 8;
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}.guided", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut workers: Vec<_> = (0..WORKERS)
        .map(|n| {
            Command::new(&exe)
                .args([prop.id, "--guided-worker"])
                .arg(&dir)
                .args([n.to_string(), secs.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .process_group(0)
                .spawn()
                .unwrap()
        })
        .collect();
    let patience = Duration::from_secs(secs + prop.case_secs * 2);
    let mut suspects: Vec<usize>;
    let mut error = None;
    loop {
        std::thread::sleep(Duration::from_millis(50));
        let status: Vec<_> = workers.iter_mut().map(|it| it.try_wait().unwrap()).collect();
        suspects = (0..status.len()).filter(|i| status[*i].map_or(false, |it| !it.success())).collect();
        if status.iter().any(|it| it.map_or(false, |it| it.code() == Some(2))) {
            error = Some("not built with coverage counters".to_string());
            suspects.clear();
            break;
        }
        if !suspects.is_empty() || status.iter().all(|it| it.is_some()) {
            break;
        }
        if start.elapsed() > patience {
            suspects = (0..status.len()).filter(|i| status[*i].is_none()).collect();
            break;
        }
    }
    workers.iter_mut().for_each(kill_group);
    let mut violation = None;
    for n in &suspects {
        let fail = std::fs::read_to_string(dir.join(format!("{}.fail", n))).ok();
        let fail: Option<Value> = fail.and_then(|it| serde_json::from_str(&it).ok());
        let tape: Vec<u64> = match &fail {
            Some(v) => v["tape"].as_array().unwrap().iter().map(|it| it.as_u64().unwrap()).collect(),
            None => Src::restore(&std::fs::read(dir.join(format!("{}.tape", n))).unwrap_or_default()),
        };
        let case = CaseRef::Tape(tape.clone());
        let message = match run_alone(prop, &case) {
            Outcome::Passed => {
                error = Some(match fail {
                    Some(v) => format!("a failure that does not occur again: {}", v["message"]),
                    None => "a process ended in a case that passes alone".to_string(),
                });
                continue;
            }
            Outcome::Failed(m) | Outcome::Crashed(m) => m,
            Outcome::Hung => "does not terminate".to_string(),
        };
        let budget = Duration::from_secs(if message == "does not terminate" { 0 } else { 60 });
        let tape = shrink(tape, budget, |cand| match run_alone(prop, &CaseRef::Tape(cand.to_vec())) {
            Outcome::Passed => None,
            _ => Some(cand.to_vec()),
        });
        let case = CaseRef::Tape(tape);
        let input = show(prop, &case);
        violation = Some(json!({ "case": case.to_json(), "message": message, "input": input }));
        error = None;
        break;
    }
    let all: Vec<Value> = (0..WORKERS).filter_map(|n| crate::guided::stats(&dir, n)).collect();
    let _ = std::fs::remove_dir_all(&dir);
    let sum = |k: &str| all.iter().map(|it| it[k].as_u64().unwrap_or(0)).sum::<u64>();
    let max = |k: &str| all.iter().map(|it| it[k].as_u64().unwrap_or(0)).max().unwrap_or(0);
    // added to what the random cases covered
    let path = verif_dir().join("evidence").join(format!("{}.json", prop.id));
    let evidence = std::fs::read_to_string(&path).ok().and_then(|it| serde_json::from_str::<Value>(&it).ok());
    if let Some(mut evidence) = evidence {
        evidence["coverage"]["guided"] = json!({
            "seconds": secs, "processes": WORKERS, "runs": sum("runs"), "nontrivial_runs": sum("nontrivial"),
            "kept_tapes": sum("corpus"), "edges": max("edges"), "edge_counts": max("features"),
        });
        if violation.is_some() {
            evidence["violations"] = json!(1);
        }
        evidence["wall_s"] = json!(evidence["wall_s"].as_f64().unwrap_or(0.0) + start.elapsed().as_secs_f64());
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n");
    }
    if let Some(mut v) = violation {
        let _ = std::fs::create_dir_all(verif_dir().join("replays"));
        let name = format!("replays/{}-{:08x}.json", prop.id, hash_bytes(v.to_string().as_bytes()) as u32);
        v["property"] = json!(prop.id);
        std::fs::write(verif_dir().join(&name), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
        println!("{}", v["message"].as_str().unwrap_or(""));
        println!("{}", v["input"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={}", prop.id, name);
        return 1;
    }
    if let Some(error) = error {
        println!("ERROR: {}", error);
        return 3;
    }
    println!("{}: held on {} guided cases; {} edges, {} tapes kept, last new after {:.0} s", prop.id, sum("runs"), max("edges"), sum("corpus"),
        all.iter().filter_map(|it| it["last_new_s"].as_f64()).fold(0.0, f64::max));
    0
}

fn in_flight(progress: &Path) -> Vec<u64> {
    let bytes = std::fs::read(progress).unwrap_or_default();
    bytes.chunks_exact(8).map(|it| u64::from_le_bytes(it.try_into().unwrap())).collect()
}

/// The worker died or stalled: find a case that does so alone, and shrink it.
fn diagnose(prop: &'static Prop, progress: &Path, tier: Tier) -> Option<Value> {
    let n_fixed = prop.fixed.map_or(0, |(n, _)| n(tier));
    for i in in_flight(progress) {
        let i = match i {
            0 => continue,
            i => i - 1,
        };
        let case = if i < n_fixed {
            CaseRef::Fixed(i)
        } else {
            // The tape as the generator would make it; long enough for any case.
            CaseRef::Tape(regenerate(prop, i - n_fixed))
        };
        let message = match run_alone(prop, &case) {
            Outcome::Passed => continue,
            Outcome::Failed(m) | Outcome::Crashed(m) => m,
            Outcome::Hung => "does not terminate".to_string(),
        };
        let hung = message == "does not terminate";
        let case = match case {
            CaseRef::Tape(tape) => {
                let budget = Duration::from_secs(if hung { 0 } else { 60 });
                CaseRef::Tape(shrink(tape, budget, |cand| {
                    match run_alone(prop, &CaseRef::Tape(cand.to_vec())) {
                        Outcome::Passed => None,
                        _ => Some(cand.to_vec()),
                    }
                }))
            }
            it => it,
        };
        let input = show(prop, &case);
        return Some(json!({ "case": case.to_json(), "message": message, "input": input }));
    }
    None
}

/// The raw random numbers; `below` reduces them on replay exactly as it does when generating.
fn regenerate(prop: &Prop, index: u64) -> Vec<u64> {
    let mut rng = crate::src::Rng::new(case_seed(prop, index));
    (0..20_000).map(|_| rng.next()).collect()
}

fn known_findings(dir: &Path, id: &str) -> Vec<Value> {
    let text = std::fs::read_to_string(dir.join("known_findings.json")).unwrap_or_default();
    let v: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
    let all = v["findings"].as_array().cloned().unwrap_or_default();
    all.into_iter().filter(|it| it["property"] == id).collect()
}

pub fn main(prop: &'static Prop, args: &[String]) -> i32 {
    let args: Vec<&str> = args.iter().map(|it| it.as_str()).collect();
    match args.as_slice() {
        [] => supervisor(prop),
        ["--worker", progress, out] => worker(prop, Path::new(progress), Path::new(out)),
        ["--guided", secs] => guided(prop, secs.parse().unwrap()),
        ["--guided-worker", dir, n, secs] => {
            install_panic_hook();
            let (dir, n, secs) = (PathBuf::from(dir), n.parse().unwrap(), secs.parse().unwrap());
            let thread = std::thread::Builder::new().stack_size(prop.stack);
            let body = move || {
                crate::guided::worker(&dir, n, case_seed(prop, !0), Duration::from_secs(secs), |src| {
                    let mut ctx = Ctx::default();
                    run_src(prop, src, &mut ctx).map(|_| ctx.nontrivial)
                })
            };
            thread.spawn(body).unwrap().join().unwrap_or(3)
        }
        ["--alone", file] => alone(prop, file),
        ["--replay", file] => replay(prop, file),
        ["--show", file] => {
            install_panic_hook();
            let text = std::fs::read_to_string(file).unwrap();
            let case = CaseRef::from_json(&serde_json::from_str(&text).unwrap());
            let limit = libc::rlimit { rlim_cur: prop.case_secs, rlim_max: prop.case_secs + 5 };
            unsafe { libc::setrlimit(libc::RLIMIT_CPU, &limit) };
            EAGER_SHOW.store(true, Ordering::Relaxed);
            let mut ctx = Ctx { want_show: true, ..Ctx::default() };
            let _ = run_ref(prop, &case, &mut ctx);
            0
        }
        ["--probe", id] => {
            install_panic_hook();
            let probe = prop.probes.iter().find(|it| it.id == *id).unwrap();
            let thread = std::thread::Builder::new().stack_size(prop.stack);
            let fails = thread.spawn(probe.fails).unwrap().join().unwrap_or(probe.crash);
            if fails {
                10
            } else {
                0
            }
        }
        _ => {
            eprintln!("usage: pbt ID [--replay FILE]");
            2
        }
    }
}

/// Print inputs at once: the case may not return.
static EAGER_SHOW: AtomicBool = AtomicBool::new(false);
