//! P09: interleavings of rate limiter checks, cleanup and resets.
use crate::lin::*;
use common::{par_for, vclock, Run};
use sip_ratelimit::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Check(usize),
    Clean,
    Reset(usize),
    Left(usize),
    Info(usize),
    Active,
    Log(usize),
}
const OPS: [Op; 8] = [Op::Check(0), Op::Check(1), Op::Clean, Op::Reset(0), Op::Left(0), Op::Active, Op::Info(0), Op::Log(0)];
const KEYS: [&str; 2] = ["a", "b"];
#[derive(Clone, Debug, PartialEq, Hash)]
enum R {
    Yes,
    No,
    Unit,
    N(usize),
    Left(Option<u32>),
}
/// (name, burst, checks of key a before, idle, keys up to the limit less this)
const SETUPS: [(&str, u32, u32, bool, Option<usize>); 5] = [("fresh, burst 2", 2, 0, false, None), ("one left", 3, 2, false, None), ("none left", 2, 2, false, None), ("idle", 2, 2, true, None), ("one below the key limit", 2, 0, false, Some(1))];
struct Lim {
    setup: usize,
    cap: usize,
}
#[derive(Clone, Debug)]
struct M {
    left: [Option<u32>; 2],
    idle: bool,
    others: usize,
}
impl Lim {
    fn cfg(&self) -> RateLimitConfig {
        let b = SETUPS[self.setup].1;
        // one token a day: no refill within the program
        RateLimitConfig::new(1, 86_400).unwrap().with_burst_capacity(b).unwrap()
    }
}
impl Sys for Lim {
    type S = RateLimiter;
    type O = Op;
    type R = R;
    type M = M;
    fn setup_name(&self) -> String {
        SETUPS[self.setup].0.into()
    }
    fn mk(&self) -> RateLimiter {
        let l = RateLimiter::new(self.cfg());
        let (_, _, n, idle, tot) = SETUPS[self.setup];
        for _ in 0..n {
            l.check_rate_limit(KEYS[0]);
        }
        if let Some(less) = tot {
            for i in 0..self.cap - less {
                l.check_rate_limit(&format!("k{i}"));
            }
        }
        if idle {
            vclock::advance_ms(100_000_000);
        }
        l
    }
    fn init(&self) -> M {
        let (_, b, n, idle, tot) = SETUPS[self.setup];
        // after the idle time the one token of the day has come back
        let a = if n == 0 { None } else { Some(b - n + idle as u32) };
        M { left: [a, None], idle, others: tot.map_or(0, |l| self.cap - l) }
    }
    fn call(&self, l: &RateLimiter, op: Op, _: u32) -> R {
        let y = |b: bool| if b { R::Yes } else { R::No };
        match op {
            Op::Check(k) => y(l.check_rate_limit(KEYS[k])),
            Op::Clean => {
                l.cleanup_idle();
                R::Unit
            }
            Op::Reset(k) => {
                l.reset(KEYS[k]);
                R::Unit
            }
            Op::Left(k) => R::Left(l.remaining_tokens(KEYS[k])),
            Op::Info(k) => R::Left(l.get_limit_info(KEYS[k]).map(|i| i.remaining())),
            Op::Active => R::N(l.active_count()),
            Op::Log(k) => {
                l.should_log_blocked(KEYS[k], std::time::Duration::from_secs(1));
                R::Unit
            }
        }
    }
    fn apply(&self, m: &mut M, op: Op, _: u32, r: &R) -> bool {
        let burst = SETUPS[self.setup].1;
        let tracked = m.others + m.left.iter().flatten().count();
        match op {
            Op::Check(k) => {
                if m.left[k].is_none() {
                    if tracked >= self.cap {
                        return *r == R::No;
                    }
                    m.left[k] = Some(burst);
                }
                let t = m.left[k].as_mut().unwrap();
                if k == 0 {
                    m.idle = false;
                }
                if *t > 0 {
                    *t -= 1;
                    *r == R::Yes
                } else {
                    *r == R::No
                }
            }
            Op::Clean => {
                if m.idle {
                    m.left[0] = None;
                }
                true
            }
            Op::Reset(k) => {
                m.left[k] = None;
                true
            }
            Op::Left(k) | Op::Info(k) => *r == R::Left(m.left[k]),
            Op::Active => matches!(r, R::N(n) if *n <= self.cap),
            Op::Log(_) => true,
        }
    }
    fn always(&self, l: &RateLimiter) -> Option<String> {
        (l.active_count() > self.cap).then(|| format!("{} keys tracked, limit {}", l.active_count(), self.cap))
    }
    fn observe(&self, l: &RateLimiter) -> String {
        format!("{:?} {}", KEYS.map(|k| l.remaining_tokens(k)), l.active_count())
    }
    fn fin(&self, m: &M, seen: &str) -> bool {
        format!("{:?} {}", m.left, m.others + m.left.iter().flatten().count()) == seen
    }
}

pub fn p09(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 threads with 2 operations and 3 threads with 1, every schedule up to the preemption bound, results and final budgets explained by some order");
    run.assume(SC);
    vclock::reset();
    let l = RateLimiter::new(RateLimitConfig::new(1, 86_400).unwrap());
    let cap = (0..200).position(|i| !l.check_rate_limit(&format!("p{i}")));
    run.note("key limit in the explored copy", cap.map_or("not lowered".to_string(), |c| c.to_string()));
    let mut progs = programs(OPS.len(), 2, 2);
    progs.extend(programs(OPS.len(), 3, 1));
    if run.thorough() {
        progs.extend(programs(OPS.len(), 4, 1));
        progs.extend(programs(5, 3, 2));
    }
    let bound = run.pick(2, 3);
    run.note("preemption bound", bound);
    let schedules = std::sync::atomic::AtomicU64::new(0);
    par_for(run, progs.len(), |pi| {
        for (setup, s) in SETUPS.iter().enumerate() {
            if s.4.is_some() && cap.is_none() {
                continue;
            }
            schedules.fetch_add(explore(run, &Lim { setup, cap: cap.unwrap_or(usize::MAX) }, &OPS, &progs[pi], bound), std::sync::atomic::Ordering::Relaxed);
        }
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
    run.note("programs", progs.len());
}
