//! Shared machinery of the bounded-exhaustive checks: evidence, violations,
//! known findings, exhaustive enumeration helpers and a per-thread virtual clock.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod vclock;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    seed: u64,
    start: Instant,
    shards: Vec<Mutex<HashSet<u64>>>,
    transitions: AtomicU64,
    traces: AtomicU64,
    samples: Mutex<Vec<String>>,
    viol: Mutex<BTreeMap<String, String>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>,
    notes: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    only: Option<String>,
    exhaustive: AtomicBool,
}

pub const MAX_VIOLATIONS: usize = 12;

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

thread_local! { static QUIET: Cell<bool> = const { Cell::new(false) }; }

impl Run {
    /// Panics inside `quiet` are reported to the caller, not printed.
    pub fn start(prop: &str, tier: Tier, only: Option<String>) -> Run {
        static HOOK: std::sync::Once = std::sync::Once::new();
        HOOK.call_once(|| {
            let old = std::panic::take_hook();
            std::panic::set_hook(Box::new(move |i| {
                if !QUIET.with(|q| q.get()) {
                    old(i)
                }
            }));
        });
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.tsv", verif_dir())) {
            for l in s.lines() {
                let mut p = l.split('\t');
                if let (Some("known"), Some(pr), Some(key), Some(what)) =
                    (p.next(), p.next(), p.next(), p.next())
                {
                    if pr == prop {
                        known.push((key.to_string(), what.to_string()));
                    }
                }
            }
        }
        Run {
            prop: prop.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            shards: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            viol: Mutex::new(BTreeMap::new()),
            known_hit: Mutex::new(BTreeMap::new()),
            known,
            notes: Mutex::new(BTreeMap::new()),
            assumptions: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            only,
            exhaustive: AtomicBool::new(true),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// Record a distinct (abstract) state or input.
    pub fn state<T: Hash>(&self, t: &T) -> bool {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        let v = h.finish();
        self.shards[(v % 64) as usize].lock().unwrap().insert(v)
    }
    pub fn step(&self, n: u64) {
        self.transitions.fetch_add(n, Ordering::Relaxed);
    }
    pub fn trace(&self) {
        self.traces.fetch_add(1, Ordering::Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut g = self.samples.lock().unwrap();
        if g.len() < 6 {
            let v = s();
            g.push(v);
        }
    }
    pub fn note(&self, k: &str, v: impl ToString) {
        self.notes.lock().unwrap().insert(k.into(), v.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn not_exhaustive(&self) {
        self.exhaustive.store(false, Ordering::Relaxed);
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        let v = vclock::now();
        vclock::real();
        let e = self.start.elapsed().as_secs_f64();
        vclock::set(v);
        e
    }
    /// `key` identifies the failing input/history exactly; `detail` explains.
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        let key: String = key.into().replace(['\t', '\n', '\r'], " ");
        if let Some(o) = &self.only {
            if &key != o {
                return;
            }
        }
        for (k, what) in &self.known {
            if *k == key {
                self.known_hit.lock().unwrap().insert(key, what.clone());
                return;
            }
        }
        let mut g = self.viol.lock().unwrap();
        if g.len() < MAX_VIOLATIONS {
            g.entry(key).or_insert(detail.into());
        }
        if g.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn check(&self, ok: bool, key: impl FnOnce() -> String, detail: impl FnOnce() -> String) {
        if !ok {
            self.violation(key(), detail())
        }
    }
    pub fn finish(self) -> i32 {
        let wall = self.elapsed();
        vclock::real();
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let states: usize = self.shards.iter().map(|s| s.lock().unwrap().len()).sum();
        let viol = self.viol.into_inner().unwrap();
        let mut j = String::new();
        j.push_str(&format!(
            "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{}",
            js(&self.prop),
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            self.seed,
            states,
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            self.exhaustive.load(Ordering::Relaxed)
        ));
        for (k, v) in self.notes.into_inner().unwrap() {
            j.push_str(&format!(",{}:{}", js(&k), js(&v)));
        }
        let s: Vec<String> = self.samples.into_inner().unwrap().iter().map(|s| js(s)).collect();
        j.push_str(&format!(",\"samples\":[{}]}}", s.join(",")));
        let a: Vec<String> = self.assumptions.into_inner().unwrap().iter().map(|s| js(s)).collect();
        j.push_str(&format!(
            ",\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            a.join(","),
            wall,
            viol.len()
        ));
        // a property decided by several binaries: check.sh merges the parts
        let part = std::env::var("VERIF_PART").ok().filter(|p| !p.is_empty());
        let name = match &part {
            Some(p) => format!("{}.part.{p}", self.prop),
            None => self.prop.clone(),
        };
        if let Err(e) = std::fs::write(format!("{dir}/{name}.json"), j) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
        for (k, what) in self.known_hit.into_inner().unwrap() {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, k);
        }
        let rdir = format!("{dir}/replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (k, d)) in viol.iter().enumerate() {
            let p = format!("{rdir}/{name}-{}.txt", i);
            let _ = std::fs::write(
                &p,
                format!("property: {}\nkey: {}\ndetail: {}\nreplay: /verif/check.sh {} replay {}\n", self.prop, k, d, self.prop, p),
            );
            println!("VIOLATION property={} replay={}", self.prop, p);
            println!("  case: {}", trunc(k, 600));
            println!("  why:  {}", trunc(d, 1200));
        }
        println!(
            "{}: states={} transitions={} violations={} wall={:.1}s",
            self.prop,
            states,
            self.transitions.load(Ordering::Relaxed),
            viol.len(),
            wall
        );
        if viol.is_empty() {
            0
        } else {
            1
        }
    }
}

fn trunc(s: &str, n: usize) -> String {
    s.chars().take(n).collect()
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run `f`, turning a panic into Err(message) without printing it.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}

/// Work items 0..n over all cores; a panic escaping `f` is a harness-visible violation.
pub fn par_for(run: &Run, n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n || run.stopped() {
                        break;
                    }
                    if let Err(p) = quiet(|| f(i)) {
                        run.violation(format!("panic in work item {i}"), format!("code under test panicked: {p}"));
                    }
                })
                .unwrap();
        }
    });
}

/// Every sequence over 0..alpha with length exactly `len` (prefixes are covered
/// by checking each step as the sequence is replayed).
pub fn sequences(run: &Run, alpha: usize, len: usize, f: impl Fn(&[usize]) + Sync) {
    let split = if len >= 2 { 2 } else { len };
    let blocks = alpha.pow(split as u32);
    par_for(run, blocks, |b| {
        let mut seq = vec![0usize; len];
        let mut x = b;
        for k in 0..split {
            seq[k] = x % alpha;
            x /= alpha;
        }
        loop {
            if run.stopped() {
                return;
            }
            if let Err(p) = quiet(|| f(&seq)) {
                run.violation(format!("sequence {seq:?}"), format!("code under test panicked: {p}"));
            }
            let mut k = len;
            loop {
                if k == split {
                    return;
                }
                k -= 1;
                seq[k] += 1;
                if seq[k] < alpha {
                    break;
                }
                seq[k] = 0;
            }
        }
    });
}

/// Every string made of up to `max` tokens from `toks`.
pub fn token_strings(run: &Run, toks: &[&str], max: usize, f: impl Fn(&str) + Sync) {
    for len in 0..=max {
        let split = if len >= 2 { 2 } else { len };
        let blocks = toks.len().pow(split as u32);
        par_for(run, blocks, |b| {
            let mut idx = vec![0usize; len];
            let mut x = b;
            for k in 0..split {
                idx[k] = x % toks.len();
                x /= toks.len();
            }
            let mut s = String::new();
            loop {
                if run.stopped() {
                    return;
                }
                s.clear();
                for &i in &idx {
                    s.push_str(toks[i]);
                }
                if let Err(p) = quiet(|| f(&s)) {
                    run.violation(format!("input {s:?}"), format!("code under test panicked: {p}"));
                }
                let mut k = len;
                loop {
                    if k == split {
                        return;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < toks.len() {
                        break;
                    }
                    idx[k] = 0;
                }
            }
        });
    }
}

/// Cartesian product of option counts; calls `f` with the index vector.
pub fn product(run: &Run, dims: &[usize], f: impl Fn(&[usize]) + Sync) {
    let total: usize = dims.iter().product();
    let chunk = (total / 2048).max(1);
    let blocks = total.div_ceil(chunk);
    par_for(run, blocks, |b| {
        let mut v = vec![0usize; dims.len()];
        for t in b * chunk..((b + 1) * chunk).min(total) {
            if run.stopped() {
                return;
            }
            let mut x = t;
            for (k, d) in dims.iter().enumerate() {
                v[k] = x % d;
                x /= d;
            }
            if let Err(p) = quiet(|| f(&v)) {
                run.violation(format!("combination {v:?}"), format!("code under test panicked: {p}"));
            }
        }
    });
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![], &mut out);
    out
}

/// Command line: BIN PROPERTY quick|thorough|replay [FILE]
pub fn main_with(checks: &[(&str, fn(&Run))]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let Some((_, f)) = checks.iter().find(|(n, _)| *n == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2)
    };
    let mut only = None;
    if tier == "replay" {
        if let Some(s) = a.get(3).and_then(|p| std::fs::read_to_string(p).ok()) {
            only = s.lines().find_map(|l| l.strip_prefix("key: ")).map(|s| s.to_string());
        }
    }
    let run = Run::start(&prop, if tier == "quick" { Tier::Quick } else { Tier::Thorough }, only);
    let r = catch_unwind(AssertUnwindSafe(|| f(&run)));
    if r.is_err() {
        run.violation("panic in check driver", "a panic escaped the code under test");
    }
    let rc = run.finish();
    // Do not wait for threads a violating schedule may have left blocked.
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc_exit(rc) }
}
extern "C" {
    #[link_name = "_exit"]
    fn libc_exit(c: i32) -> !;
}
