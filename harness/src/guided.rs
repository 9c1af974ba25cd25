//! Coverage-guided search over choice tapes, for a build with coverage counters (see run.sh): tapes
//! that reach something new are kept and mutated.
use std::io::{Seek, SeekFrom, Write};
use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::src::{Rng, Src};

static COUNTERS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());

/// Called by each instrumented module before `main`.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    let region = (start as usize, end as usize);
    let mut counters = COUNTERS.lock().unwrap();
    if region.0 < region.1 && !counters.contains(&region) {
        counters.push(region);
    }
}

/// For which edge which numbers of times have been seen, as sets of eight ranges.
struct Coverage {
    regions: Vec<(usize, usize)>,
    seen: Vec<u8>,
}

impl Coverage {
    fn new() -> Coverage {
        let regions = COUNTERS.lock().unwrap().clone();
        let n = regions.iter().map(|(a, b)| b - a).sum();
        Coverage { regions, seen: vec![0; n] }
    }
    fn clear(&self) {
        for (a, b) in &self.regions {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
        }
    }
    /// The number of new features since the last `clear`.
    fn take(&mut self) -> usize {
        let mut new = 0;
        let mut at = 0;
        for (a, b) in &self.regions {
            let counters = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
            for chunk in counters.chunks(64) {
                // most of them are zero
                if chunk.iter().any(|it| *it != 0) {
                    for (i, n) in chunk.iter().enumerate() {
                        let bit = match n {
                            0 => continue,
                            1 => 1,
                            2 => 2,
                            3 => 4,
                            4..=7 => 8,
                            8..=15 => 16,
                            16..=31 => 32,
                            32..=127 => 64,
                            _ => 128,
                        };
                        if self.seen[at + i] & bit == 0 {
                            self.seen[at + i] |= bit;
                            new += 1;
                        }
                    }
                }
                at += chunk.len();
            }
        }
        new
    }
    fn edges(&self) -> usize {
        self.seen.iter().filter(|it| **it != 0).count()
    }
    fn features(&self) -> u32 {
        self.seen.iter().map(|it| it.count_ones()).sum()
    }
}

fn below(rng: &mut Rng, n: usize) -> usize {
    (rng.next() % n as u64) as usize
}

fn mutate(rng: &mut Rng, corpus: &[Vec<u64>]) -> Src {
    if corpus.is_empty() || below(rng, 12) == 0 {
        return Src::random(rng.next());
    }
    // mostly one of those found last
    let pick = |rng: &mut Rng| {
        let n = corpus.len();
        if below(rng, 2) == 0 { &corpus[n - 1 - below(rng, n.min(40))] } else { &corpus[below(rng, n)] }
    };
    let mut tape = pick(rng).clone();
    for _ in 0..1 + below(rng, 4) {
        let n = tape.len();
        if n == 0 {
            break;
        }
        let at = below(rng, n);
        let most = if below(rng, 4) == 0 { 256 } else { 8 };
        let len = 1 + below(rng, (n - at).min(most));
        match below(rng, 10) {
            0 | 1 => tape[at] = rng.next(),
            2 => tape[at] = below(rng, 4) as u64,
            3 => tape[at] = if below(rng, 2) == 0 { tape[at].wrapping_add(1) } else { tape[at].wrapping_sub(1) },
            4 => {
                tape.drain(at..at + len);
            }
            5 => {
                let block = tape[at..at + len].to_vec();
                let to = below(rng, n);
                tape.splice(to..to, block);
            }
            6 => {
                let block: Vec<u64> = (0..len).map(|_| rng.next()).collect();
                tape.splice(at..at, block);
            }
            7 => {
                let other = pick(rng);
                if !other.is_empty() {
                    let from = below(rng, other.len());
                    let end = from + 1 + below(rng, (other.len() - from).min(64));
                    let over = (at + if below(rng, 2) == 0 { 0 } else { end - from }).min(n);
                    tape.splice(at..over, other[from..end].iter().copied());
                }
            }
            8 => {
                let to = below(rng, n);
                tape.swap(at, to);
            }
            // what follows is drawn anew
            _ => tape.truncate(at),
        }
    }
    tape.truncate(20_000);
    Src::prefixed(tape, rng.next())
}

/// One process of the search. The tape that runs is in `dir/N.tape`.
pub fn worker(
    dir: &Path,
    n: u64,
    seed: u64,
    time: Duration,
    mut run: impl FnMut(&mut Src) -> Result<bool, String>,
) -> i32 {
    let mut coverage = Coverage::new();
    if coverage.seen.is_empty() {
        eprintln!("not built with coverage counters");
        return 2;
    }
    let start = Instant::now();
    let mut rng = Rng::new(seed ^ n.wrapping_mul(0x9e3779b97f4a7c15));
    let mut file = std::fs::File::create(dir.join(format!("{}.tape", n))).unwrap();
    let mut corpus: Vec<Vec<u64>> = Vec::new();
    let (mut runs, mut nontrivial) = (0u64, 0u64);
    let mut last_new = 0.0;
    while start.elapsed() < time {
        let mut src = mutate(&mut rng, &corpus);
        let raw = src.state();
        file.seek(SeekFrom::Start(0)).unwrap();
        file.write_all(&raw).unwrap();
        coverage.clear();
        let res = run(&mut src);
        let new = coverage.take();
        runs += 1;
        match res {
            Ok(yes) => nontrivial += yes as u64,
            Err(message) => {
                let found = json!({ "tape": src.used(), "message": message });
                std::fs::write(dir.join(format!("{}.fail", n)), found.to_string()).unwrap();
                return 1;
            }
        }
        if new > 0 {
            corpus.push(src.used());
            last_new = start.elapsed().as_secs_f64();
        }
    }
    let stats = json!({
        "runs": runs, "nontrivial": nontrivial, "corpus": corpus.len(), "edges": coverage.edges(),
        "features": coverage.features(), "last_new_s": last_new,
    });
    std::fs::write(dir.join(format!("{}.stats", n)), stats.to_string()).unwrap();
    0
}

pub fn stats(dir: &Path, n: u64) -> Option<Value> {
    serde_json::from_str(&std::fs::read_to_string(dir.join(format!("{}.stats", n))).ok()?).ok()
}
