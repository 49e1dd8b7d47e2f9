//! The case runner: seeds, observation counters, panic capture, watchdog.

use std::collections::{BTreeMap, HashSet};
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::rng::{hash_bytes, mix, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub tier: Tier,
    pub verbose: bool,
    /// Index of the case being run.
    pub index: u64,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub type Verdict = Result<(), String>;
pub type Case = fn(&mut Ctx) -> Verdict;

impl Ctx {
    pub fn new(tier: Tier) -> Self {
        Ctx {
            rng: Rng::new(0),
            tier,
            verbose: false,
            index: 0,
            evaluations: 0,
            nontrivial: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
        }
    }

    /// Count an observed event.
    pub fn saw(&mut self, what: &str) {
        self.saw_n(what, 1);
    }

    pub fn saw_n(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }

    /// Record one evaluated execution: `key` is what tells it from others.
    pub fn evaluated(&mut self, key: &str, nontrivial: bool) {
        self.evaluations += 1;

        if nontrivial {
            self.nontrivial.insert(hash_bytes(key.as_bytes()));
        }

        if self.verbose {
            eprintln!("--- case {}\n{}", self.index, key);
        }

        if self.samples.len() < 2 || (self.samples.len() < 4 && self.index % 97 == 13) {
            let mut s = key.to_string();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);
static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn cpu_s() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f = rest.split_whitespace().collect::<Vec<_>>();
    let t = |i: usize| f.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Plan {
    pub id: String,
    pub seed: u64,
    pub tier: Tier,
    pub cases: u64,
    pub shard: u64,
    pub shards: u64,
    pub wall: Duration,
    pub out: String,
    pub only: Option<u64>,
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(id.as_bytes())).wrapping_add(index))
}

fn write_result(out: &str, ctx: &Ctx, violation: Option<(u64, &str)>, error: Option<&str>, done: bool) {
    let mut s = String::from("{");
    s.push_str(&format!("\"evaluations\":{},\"done\":{},", ctx.evaluations, done));
    s.push_str("\"counters\":{");
    for (i, (k, v)) in ctx.counters.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&format!("{}:{}", json_str(k), v));
    }
    s.push_str("},\"samples\":[");
    for (i, v) in ctx.samples.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&json_str(v));
    }
    s.push(']');
    if let Some((case, msg)) = violation {
        s.push_str(&format!(",\"violation\":{{\"case\":{},\"message\":{}}}", case, json_str(msg)));
    }
    if let Some(e) = error {
        s.push_str(&format!(",\"error\":{}", json_str(e)));
    }
    s.push('}');
    let mut bin = Vec::with_capacity(ctx.nontrivial.len() * 8);
    for h in &ctx.nontrivial {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(format!("{out}.hashes"), bin).unwrap();
    std::fs::write(format!("{out}.tmp"), s).unwrap();
    std::fs::rename(format!("{out}.tmp"), out).unwrap();
}

/// CPU seconds a single case may take before it is taken to never finish. The
/// slowest case of an unchanged tree takes well below a hundredth of this.
const CASE_CPU_S: f64 = 60.0;

/// Run a case, telling a panic of the code under test from one of the harness.
pub fn guarded(case: Case, ctx: &mut Ctx) -> Result<Verdict, String> {
    *LAST_PANIC.lock().unwrap() = None;
    match catch_unwind(AssertUnwindSafe(|| case(ctx))) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.lock().unwrap().take().unwrap_or_default();
            // Note: bounds on what the code under test does are asserted by writers.
            if !msg.starts_with("genco: ") && (loc.starts_with("src/") || loc.contains("/verif/harness/")) {
                Err(format!("harness panicked at {loc}: {msg}"))
            } else {
                Ok(Err(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        *LAST_PANIC.lock().unwrap() = Some((loc, msg));
    }));
}

pub fn run(plan: &Plan, case: Case) -> i32 {
    install_hook();

    let crumb = std::fs::File::create(format!("{}.crumb", plan.out)).unwrap();
    let out = plan.out.clone();

    // Logical progress is watched in CPU time, so that a loaded machine can't
    // turn into a verdict.
    std::thread::spawn(move || {
        let mut last = (u64::MAX, cpu_s());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let cur = CURRENT.load(Ordering::Relaxed);
            let cpu = cpu_s();
            if cur != last.0 {
                last = (cur, cpu);
            } else if cpu - last.1 > CASE_CPU_S {
                let s = format!(
                    "{{\"evaluations\":0,\"done\":false,\"counters\":{{}},\"samples\":[],\"violation\":{{\"case\":{},\"message\":\"no result after {} s of CPU time\"}}}}",
                    cur, CASE_CPU_S
                );
                let _ = std::fs::write(format!("{out}.hashes"), b"");
                let _ = std::fs::write(&out, s);
                std::process::exit(1);
            }
        }
    });

    let mut ctx = Ctx::new(plan.tier);
    ctx.verbose = plan.only.is_some();
    let start = Instant::now();
    let mut index = plan.only.unwrap_or(plan.shard);
    let mut done = true;

    while index < plan.cases || plan.only.is_some() {
        if start.elapsed() > plan.wall {
            done = false;
            break;
        }

        CURRENT.store(index, Ordering::Relaxed);
        let _ = crumb.write_at(&index.to_le_bytes(), 0);
        ctx.index = index;
        ctx.rng = Rng::new(case_seed(plan.seed, &plan.id, index));

        match guarded(case, &mut ctx) {
            Ok(Ok(())) => {}
            Ok(Err(msg)) => {
                let _ = writeln!(std::io::stderr(), "case {index}: {msg}");
                write_result(&plan.out, &ctx, Some((index, &msg)), None, false);
                return 1;
            }
            Err(e) => {
                let _ = writeln!(std::io::stderr(), "case {index}: {e}");
                write_result(&plan.out, &ctx, None, Some(&e), false);
                return 2;
            }
        }

        if plan.only.is_some() {
            break;
        }

        index += plan.shards;
    }

    write_result(&plan.out, &ctx, None, None, done);
    0
}
