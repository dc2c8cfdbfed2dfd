//! Campaign framework: runs numbered cases on all cores, merges what the monitors observed, and
//! turns it into a verdict, an evidence file and replay files.

use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case tells the campaign.
pub struct Case {
    pub idx: u64,
    pub rng: Rng,
    pub tier: Tier,
    pub verbose: bool,
    /// Free-text description of the case, filled in by the check.
    pub desc: String,
    pub violations: Vec<String>,
    /// Case decided nothing (with the reason).
    pub inconclusive: Option<String>,
    /// The case exercised the property for real.
    pub nontrivial: bool,
    pub counts: BTreeMap<&'static str, u64>,
    /// Largest observed value per calibrated quantity, as a fraction of its bound.
    pub maxima: BTreeMap<&'static str, f64>,
}

impl Case {
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.violations.len() < 20 {
            let m = msg.into();
            if self.verbose {
                println!("  violation: {}", m);
            }
            self.violations.push(m);
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    /// Record an observed value against its bound; a violation if it exceeds it (or is NaN).
    pub fn bound(&mut self, k: &'static str, value: f64, bound: f64, msg: impl FnOnce() -> String) -> bool {
        let r = value / bound;
        let e = self.maxima.entry(k).or_insert(0.0);
        if r > *e {
            *e = r;
        }
        if !(value <= bound) {
            let m = msg();
            self.fail(format!("{}: observed {:e} exceeds {:e}: {}", k, value, bound, m));
            return false;
        }
        true
    }
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Case),
    /// Counters that must be non-zero for the run to count as having observed anything.
    pub require: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static BEAT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
pub const NTHREADS_MAX: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static BEATS: [AtomicU64; NTHREADS_MAX] = [ZERO; NTHREADS_MAX];
static CURRENT: [AtomicU64; NTHREADS_MAX] = [ZERO; NTHREADS_MAX];
static TIDS: [AtomicU64; NTHREADS_MAX] = [ZERO; NTHREADS_MAX];

/// Called on every user-function event: the code under test is alive.
pub fn beat() {
    BEAT.with(|b| {
        let i = b.get();
        if i < NTHREADS_MAX {
            BEATS[i].fetch_add(1, Ordering::Relaxed);
        }
    });
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn cpu_ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = s.rsplit(')').next()?;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// CPU seconds a thread may burn without a single user-function event before it counts as hung.
/// Between two events the code under test does at most a few small factorizations (microseconds).
const HANG_CPU_TICKS: u64 = 40 * 100;

pub fn run_case(spec: &Spec, seed: u64, tier: Tier, idx: u64, verbose: bool) -> Case {
    let h = spec.id.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
    let mut c = Case {
        idx,
        rng: Rng::new(mix(mix(seed, h), idx)),
        tier,
        verbose,
        desc: String::new(),
        violations: vec![],
        inconclusive: None,
        nontrivial: false,
        counts: BTreeMap::new(),
        maxima: BTreeMap::new(),
    };
    // A panic that escapes the monitors comes from the check itself or from an unmonitored call.
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (spec.case)(&mut c)));
    if let Err(e) = r {
        let m = crate::run::payload(&e);
        c.fail(format!("escaped panic: {}", m));
    }
    c
}

fn replay_path(dir: &str, id: &str, seed: u64, tier: Tier, idx: u64) -> String {
    format!("{}/{}-{}-{:?}-{}.json", dir, id, seed, tier, idx)
}

fn write_replay(dir: &str, spec: &Spec, seed: u64, tier: Tier, c: &Case) -> String {
    let _ = std::fs::create_dir_all(dir);
    let p = replay_path(dir, spec.id, seed, tier, c.idx);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": \"{}\",\n \"seed\": {},\n \"tier\": \"{}\",\n \"index\": {},\n \"case\": \"{}\",\n \"violations\": [{}],\n \"rerun\": \"bash /verif/check.sh replay {}\"\n}}\n",
        spec.id,
        seed,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        c.idx,
        esc(&c.desc),
        c.violations.iter().map(|v| format!("\n  \"{}\"", esc(v))).collect::<Vec<_>>().join(","),
        p
    );
    let _ = std::fs::write(&p, s);
    p
}

pub fn campaign(spec: &Spec, seed: u64, tier: Tier, evidence: &str, replays: &str, scale: f64, extra: &str) -> i32 {
    let start = Instant::now();
    let total = ((if tier == Tier::Quick { spec.quick } else { spec.thorough }) as f64 * scale).max(1.0) as u64;
    let next = AtomicU64::new(0);
    let stop = AtomicUsize::new(0);
    let merged: Mutex<Merged> = Mutex::new(Merged::default());
    let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(NTHREADS_MAX - 1);
    let done = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for ti in 0..nthreads {
            let (next, stop, merged, done) = (&next, &stop, &merged, &done);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(s, move || {
                    BEAT.with(|b| b.set(ti));
                    TIDS[ti].store(gettid(), Ordering::SeqCst);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= total || stop.load(Ordering::SeqCst) >= 25 {
                            break;
                        }
                        CURRENT[ti].store(i + 1, Ordering::SeqCst);
                        beat();
                        let c = run_case(spec, seed, tier, i, false);
                        beat();
                        CURRENT[ti].store(0, Ordering::SeqCst);
                        if !c.violations.is_empty() {
                            stop.fetch_add(1, Ordering::SeqCst);
                            let p = write_replay(replays, spec, seed, tier, &c);
                            println!("VIOLATION property={} replay={}", spec.id, p);
                            println!("  case {}: {}", i, c.desc);
                            for v in c.violations.iter().take(3) {
                                println!("  {}", v);
                            }
                        }
                        merged.lock().unwrap().merge(c);
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: a worker that burns CPU without reaching any user function is hung.
        let (done, merged) = (&done, &merged);
        s.spawn(move || {
            let mut seen = vec![(u64::MAX, 0u64); nthreads];
            while done.load(Ordering::SeqCst) < nthreads {
                std::thread::sleep(std::time::Duration::from_millis(100));
                for ti in 0..nthreads {
                    let cur = CURRENT[ti].load(Ordering::SeqCst);
                    if cur == 0 {
                        seen[ti] = (u64::MAX, 0);
                        continue;
                    }
                    let b = BEATS[ti].load(Ordering::Relaxed);
                    let cpu = cpu_ticks(TIDS[ti].load(Ordering::SeqCst)).unwrap_or(0);
                    if seen[ti].0 != b {
                        seen[ti] = (b, cpu);
                    } else if cpu.saturating_sub(seen[ti].1) > HANG_CPU_TICKS {
                        let idx = cur - 1;
                        let mut c = Case {
                            idx,
                            rng: Rng::new(0),
                            tier,
                            verbose: false,
                            desc: "case hung".into(),
                            violations: vec![],
                            inconclusive: None,
                            nontrivial: true,
                            counts: BTreeMap::new(),
                            maxima: BTreeMap::new(),
                        };
                        c.fail("the code under test loops without ever calling a user function again");
                        let p = write_replay(replays, spec, seed, tier, &c);
                        println!("VIOLATION property={} replay={}", spec.id, p);
                        println!("  case {} hung (no user-function call for {} CPU seconds)", idx, HANG_CPU_TICKS / 100);
                        let mut m = merged.lock().unwrap();
                        m.merge(c);
                        write_evidence(spec, seed, tier, &m, start.elapsed().as_secs_f64(), evidence, extra);
                        std::process::exit(1);
                    }
                }
            }
        });
    });
    let m = merged.into_inner().unwrap();
    write_evidence(spec, seed, tier, &m, start.elapsed().as_secs_f64(), evidence, extra);
    println!(
        "{}: {} cases, {} non-trivial distinct, {} inconclusive, {} violating; counters {:?}; maxima {:?}; {:.1}s",
        spec.id,
        m.evals,
        m.distinct.len(),
        m.inconclusive.values().sum::<u64>(),
        m.nviol,
        m.counts,
        m.maxima,
        start.elapsed().as_secs_f64()
    );
    if !m.inconclusive.is_empty() {
        println!("  inconclusive: {:?}", m.inconclusive);
    }
    if m.nviol > 0 {
        return 1;
    }
    for k in spec.require {
        if m.counts.get(k).copied().unwrap_or(0) == 0 {
            println!("ERROR: the monitors of {} never observed '{}': inconclusive", spec.id, k);
            return 3;
        }
    }
    let inc: u64 = m.inconclusive.values().sum();
    if m.distinct.is_empty() || inc * 2 > m.evals {
        println!("ERROR: {} decided too few cases ({} of {} inconclusive)", spec.id, inc, m.evals);
        return 3;
    }
    0
}

#[derive(Default)]
struct Merged {
    evals: u64,
    distinct: HashSet<u64>,
    nviol: u64,
    inconclusive: BTreeMap<String, u64>,
    counts: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    samples: BTreeMap<u64, String>,
    viol_msgs: Vec<String>,
}

impl Merged {
    fn merge(&mut self, c: Case) {
        self.evals += 1;
        for (k, v) in &c.counts {
            *self.counts.entry(k).or_insert(0) += v;
        }
        for (k, v) in &c.maxima {
            let e = self.maxima.entry(k).or_insert(0.0);
            if *v > *e {
                *e = *v;
            }
        }
        if let Some(r) = &c.inconclusive {
            *self.inconclusive.entry(r.clone()).or_insert(0) += 1;
        }
        if c.nontrivial {
            let h = c.desc.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
            self.distinct.insert(h);
            self.samples.insert(c.idx, c.desc.clone());
            while self.samples.len() > 4 {
                let k = *self.samples.keys().last().unwrap();
                self.samples.remove(&k);
            }
        }
        if !c.violations.is_empty() {
            self.nviol += 1;
            if self.viol_msgs.len() < 5 {
                self.viol_msgs.push(format!("case {}: {}", c.idx, c.violations[0]));
            }
        }
    }
}

fn num(x: f64) -> String {
    if x.is_finite() {
        format!("{:e}", x)
    } else {
        format!("\"{}\"", x)
    }
}

fn write_evidence(spec: &Spec, seed: u64, tier: Tier, m: &Merged, wall: f64, path: &str, extra: &str) {
    let counts: Vec<String> = m.counts.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    let maxima: Vec<String> = m.maxima.iter().map(|(k, v)| format!("\"{}\": {}", k, num(*v))).collect();
    let inc: Vec<String> = m.inconclusive.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    let samples: Vec<String> = m.samples.values().map(|s| format!("\"{}\"", esc(s))).collect();
    let viol: Vec<String> = m.viol_msgs.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let asm: Vec<String> = spec.assumptions.iter().map(|s| format!("\"{}\"", esc(s))).collect();
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n  \"observed\": {{{}}},\n  \"largest_fraction_of_bound\": {{{}}},\n  \"inconclusive\": {{{}}},\n  \"build\": \"{}\",\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {},\n \"violation_messages\": [{}]\n}}\n",
        spec.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        spec.level,
        m.evals,
        m.distinct.len(),
        esc(spec.rule),
        counts.join(", "),
        maxima.join(", "),
        inc.join(", "),
        esc(extra),
        samples.join(", "),
        asm.join(", "),
        wall,
        m.nviol,
        viol.join(", ")
    );
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if let Err(e) = std::fs::write(path, s) {
        println!("ERROR: cannot write evidence {}: {}", path, e);
        std::process::exit(4);
    }
}

fn gettid() -> u64 {
    // /proc/thread-self resolves to <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|x| x.to_string_lossy().to_string()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
