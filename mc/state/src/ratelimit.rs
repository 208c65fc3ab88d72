//! P09: the rate limiter is exactly a token bucket per key, for every history of
//! checks, clock advances, cleanups and resets up to the depth bound.
use common::{par_for, permutations, product, sequences, vclock, Run};
use sip_ratelimit::{RateLimitConfig, RateLimiter, RateLimiterSet};

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
struct Bucket {
    tokens: u64,
    last: u64,
    seen: u64,
    blocked: u64,
    warned: Option<u64>,
}

struct Cfg {
    max: u32,
    win: u64,
    burst: Option<u32>,
    idle: u64,
}

const CFGS: &[Cfg] = &[
    Cfg { max: 1, win: 1, burst: None, idle: 3600 },
    Cfg { max: 2, win: 10, burst: None, idle: 3600 },
    Cfg { max: 3, win: 1, burst: Some(1), idle: 300 },
    Cfg { max: 2, win: 60, burst: Some(3), idle: 100 },
    Cfg { max: 600, win: 1, burst: Some(2), idle: 1 },
    Cfg { max: 7, win: 2, burst: Some(0), idle: 5 },
];

const KEYS: [&str; 2] = ["10.0.0.1", "10.0.0.2"];

fn mk(c: &Cfg) -> RateLimiter {
    let mut cfg = RateLimitConfig::new(c.max, c.win).unwrap().with_idle_timeout(c.idle);
    if let Some(b) = c.burst {
        cfg = cfg.with_burst_capacity(b).unwrap();
    }
    RateLimiter::new(cfg)
}

pub fn p09(run: &Run) {
    run.assume("token bucket: capacity = burst, one token per ceil(window/max) ms, fractions of an interval kept");
    run.assume("a key not checked for longer than the configured idle timeout may be forgotten by a cleanup");
    histories(run);
    windows(run);
    presets(run);
    keys(run);
    table_cap(run);
    auto_cleanup(run);
    guarded(run);
    if run.thorough() {
        run.note("bounds", "9 operations, 2 keys, 6 configurations, depth 8");
    } else {
        run.note("bounds", "9 operations, 2 keys, 6 configurations, depth 6");
    }
}

fn histories(run: &Run) {
    for (ci, c) in CFGS.iter().enumerate() {
        let interval = (c.win * 1000).div_ceil(c.max as u64); // ms
        let burst = c.burst.unwrap_or(c.max) as u64;
        sequences(run, 9, run.pick(6, 8), |seq| {
            vclock::reset();
            let t0 = vclock::now();
            let rl = mk(c);
            let mut m: [Option<Bucket>; 2] = [None, None];
            let (mut ok, mut blocked, mut cleanups) = (0u64, 0u64, 0u64);
            for (i, &op) in seq.iter().enumerate() {
                run.step(1);
                let now = (vclock::now() - t0) / 1_000_000;
                let refill = |b: &mut Bucket| {
                    if burst > 0 {
                        let n = (now - b.last) / interval;
                        b.tokens = (b.tokens + n).min(burst);
                        b.last += n * interval;
                    }
                };
                let fail = |what: String| {
                    run.violation(
                        format!("config#{ci} ops {:?}", &seq[..=i]),
                        format!("{what} (max={} win={}s burst={} t={}ms)", c.max, c.win, burst, now),
                    )
                };
                match op {
                    0 | 1 => {
                        let b = m[op].get_or_insert(Bucket { tokens: burst, last: now, seen: now, blocked: 0, warned: None });
                        refill(b);
                        b.seen = now;
                        let want = b.tokens > 0;
                        if want {
                            b.tokens -= 1;
                            ok += 1
                        } else {
                            b.blocked += 1;
                            blocked += 1
                        }
                        let got = rl.check_rate_limit(KEYS[op]);
                        if got != want {
                            fail(format!("check({}) = {got}, token bucket says {want}", KEYS[op]));
                            return;
                        }
                    }
                    2 => vclock::advance_ms((interval / 2).max(1)),
                    3 => vclock::advance_ms(interval),
                    4 => vclock::advance_ms(interval + interval / 2),
                    5 => vclock::advance_ms(c.idle * 1000 + 1),
                    6 => {
                        cleanups += 1;
                        let n = rl.cleanup_idle();
                        let mut want = 0;
                        for b in m.iter_mut() {
                            if b.as_ref().is_some_and(|b| now - b.seen > c.idle * 1000) {
                                *b = None;
                                want += 1;
                            }
                        }
                        if n != want {
                            fail(format!("cleanup removed {n} keys, {want} are idle"));
                            return;
                        }
                    }
                    7 => {
                        let got = rl.remaining_tokens(KEYS[0]);
                        let info = rl.get_limit_info(KEYS[0]);
                        let want = m[0].as_mut().map(|b| {
                            refill(b);
                            b.tokens as u32
                        });
                        if got != want {
                            fail(format!("remaining = {got:?}, expected {want:?}"));
                            return;
                        }
                        if info.as_ref().map(|i| i.remaining()) != want {
                            fail(format!("limit info remaining = {info:?}, expected {want:?}"));
                            return;
                        }
                        if let (Some(b), Some(i)) = (&m[0], &info) {
                            // milliseconds until the bucket is full, at most one
                            // interval and the rounding to a second are added
                            let wait = if burst == 0 { 0 } else { ((burst - b.tokens) * interval).saturating_sub(now - b.last) };
                            let wall = vclock::now() / 1_000_000;
                            let fits = |got: u64, at: u64| got * 1000 >= at && got * 1000 < at + interval + 1000;
                            let at = if burst == 0 { i.reset_at() * 1000 } else if wait == 0 { wall / 1000 * 1000 } else { wall + wait };
                            if i.limit() != c.max || !fits(i.retry_after(), wait) || !fits(i.reset_at(), at) {
                                fail(format!("limit info {i:?}, the bucket is full in {wait} ms, at {at}"));
                                return;
                            }
                        }
                    }
                    _ => {
                        rl.reset(KEYS[0]);
                        m[0] = None;
                    }
                }
                if rl.active_count() != m.iter().flatten().count() {
                    fail(format!("{} keys tracked, expected {}", rl.active_count(), m.iter().flatten().count()));
                    return;
                }
                run.state(&(ci, m[0].as_ref().map(|b| (b.tokens, now - b.last, now - b.seen)), m[1].as_ref().map(|b| (b.tokens, now - b.last, now - b.seen))));
            }
            let mt = rl.metrics();
            let rate = if ok + blocked == 0 { 0.0 } else { blocked as f64 / (ok + blocked) as f64 * 100.0 };
            if mt.cleanup_runs() != cleanups || (mt.block_rate() - rate).abs() > 1e-9 || mt.allowed_requests() != ok || mt.blocked_requests() != blocked || mt.total_checks() != ok + blocked {
                run.violation(format!("config#{ci} ops {seq:?} metrics"), format!("metrics {mt:?}, made {ok} allowed and {blocked} blocked checks, {cleanups} cleanups"));
            }
            run.trace();
        });
        run.sample(|| format!("config#{ci}: interval {interval} ms, burst {burst}; ops 0/1 check key, 2-5 advance, 6 cleanup, 7 query, 8 reset"));
    }
}

/// A greedy client that asks as often as it can never gets more than
/// burst + max per window, for every (max, window) pair near the rounding edges.
fn windows(run: &Run) {
    let maxes = [1u32, 2, 3, 7, 10, 59, 100, 200, 333, 500, 501, 600, 666, 900, 999, 1000, 1001, 1500, 5000];
    let wins = [1u64, 2, 3, 7, 10];
    product(run, &[maxes.len(), wins.len(), 3], |v| {
        let (max, win) = (maxes[v[0]], wins[v[1]]);
        let burst = [1u32, 2, max.min(10)][v[2]];
        vclock::reset();
        let rl = RateLimiter::new(RateLimitConfig::new(max, win).unwrap().with_burst_capacity(burst).unwrap());
        let n = win * 1000 + 1;
        let mut allowed = 0u64;
        for _ in 0..n {
            for _ in 0..4 {
                if rl.check_rate_limit("k") {
                    allowed += 1
                }
            }
            vclock::advance_ms(1);
            run.step(1);
        }
        run.state(&("win", v.to_vec()));
        run.trace();
        let bound = burst as u64 + max as u64;
        if allowed > bound {
            run.violation(format!("greedy client max={max} window={win}s burst={burst}"), format!("{allowed} requests allowed in one window, limit is burst+max = {bound}"));
        }
        if max <= 500 && allowed < max as u64 / 2 {
            run.violation(format!("starved client max={max} window={win}s burst={burst}"), format!("only {allowed} requests allowed in one window of a {max} limit"));
        }
    });
    // configuration bounds
    for (m, w, ok) in [(0, 1, false), (1, 0, false), (1, 1, true), (1_000_000, 86_400, true), (1_000_001, 1, false), (1, 86_401, false)] {
        run.step(1);
        if RateLimitConfig::new(m, w).is_ok() != ok {
            run.violation(format!("config max={m} window={w}"), "configuration bounds not enforced");
        }
    }
    if RateLimitConfig::new(1, 1).unwrap().with_burst_capacity(10_001).is_ok() || RateLimitConfig::new(1, 1).unwrap().with_burst_capacity(10_000).is_err() {
        run.violation("burst bound", "burst capacity bound is 10000");
    }
}

/// Built-in presets: forgetting an idle key must not grant an extra burst.
fn presets(run: &Run) {
    let set = RateLimiterSet::new();
    for (n, l, burst, rate) in [
        ("auth", set.auth(), 3, (10u64, 300u64)),
        ("register", set.register(), 10, (60, 3600)),
        ("invite", set.invite(), 10, (30, 60)),
        ("connection", set.connections(), 20, (100, 60)),
    ] {
        let c = l.config();
        run.step(1);
        run.state(&("preset", n));
        if (c.burst_capacity(), c.max_requests() as u64, c.window_secs()) != (burst, rate.0, rate.1) {
            run.violation(format!("preset {n}"), format!("{c:?}"));
        }
        vclock::reset();
        let l = RateLimiter::new(c.clone());
        for k in 0..burst * 3 {
            if l.check_rate_limit("a") != (k < burst) {
                run.violation(format!("preset {n} burst"), format!("check {k} of burst {burst}"));
            }
            if k < burst && !l.check_rate_limit("b") {
                run.violation(format!("preset {n} isolation"), "key b was throttled by key a");
            }
        }
        vclock::advance_ms(c.idle_timeout_secs() * 1000 + 1);
        let full = l.remaining_tokens("a");
        if full != Some(burst) {
            run.violation(format!("preset {n} idle"), format!("idle timeout {}s is shorter than the refill time: {full:?}", c.idle_timeout_secs()));
        }
        let _ = l.cleanup_idle();
        if l.active_count() != 0 {
            run.violation(format!("preset {n} cleanup"), "idle keys not removed");
        }
    }
    // a set made of given configurations uses each for its own purpose, and
    // what one of them counts or forgets the others do not
    permutations(4).into_iter().for_each(|q| {
        run.step(1);
        vclock::reset();
        let c = |i: usize| RateLimitConfig::new(i as u32 + 1, 3600).unwrap().with_idle_timeout(10 * (i as u64 + 1));
        let s = RateLimiterSet::with_configs(c(q[0]), c(q[1]), c(q[2]), c(q[3]));
        let all = [s.auth(), s.register(), s.invite(), s.connections()];
        for (l, i) in all.iter().zip(&q) {
            let n = (0..6).filter(|_| l.check_rate_limit("k")).count();
            run.check(n == i + 1, || format!("set of limits {q:?}"), || format!("a limit of {} allowed {n}", i + 1));
        }
        for k in 0..4 {
            vclock::advance_ms(10_000 + (k == 0) as u64);
            let n = s.cleanup_idle();
            let left: Vec<usize> = all.iter().map(|l| l.active_count()).collect();
            let want: Vec<usize> = q.iter().map(|i| (*i > k) as usize).collect();
            run.check(n == 1 && left == want, || format!("set of limits {q:?} cleaned up after {}0 s", k + 1), || format!("removed {n}, left {left:?}"));
        }
    });
    // an address is its text
    for a in ["10.0.0.1", "2001:db8::1", "::ffff:10.0.0.1"] {
        sequences(run, 2, 4, |q| {
            run.step(1);
            vclock::reset();
            let l = RateLimiter::new(RateLimitConfig::new(2, 3600).unwrap());
            let ip: std::net::IpAddr = a.parse().unwrap();
            let got: Vec<bool> = q.iter().map(|o| if *o == 0 { l.check_by_ip(ip) } else { l.check_rate_limit(&ip.to_string()) }).collect();
            run.check(got == [true, true, false, false] && l.active_count() == 1, || format!("address {a} asked {q:?}"), || format!("{got:?}"));
        });
    }
    let d = RateLimiterSet::disabled();
    for l in [d.auth(), d.register(), d.invite(), d.connections()] {
        for _ in 0..50 {
            if !l.check_rate_limit("a") {
                run.violation("disabled limiter", "a disabled limiter blocked a request");
            }
        }
    }
    let off = RateLimiter::new(RateLimitConfig::new(1, 60).unwrap().with_enabled(false));
    for _ in 0..50 {
        if !off.check_rate_limit("a") {
            run.violation("limiter enabled=false", "a disabled limiter blocked a request");
        }
    }
}

/// Keys that could poison logs or memory are refused and never tracked.
fn keys(run: &Run) {
    let rl = RateLimiter::new(RateLimitConfig::new(1000, 1).unwrap());
    par_for(run, 0x300, |cp| {
        let Some(ch) = char::from_u32(cp as u32) else { return };
        for k in [format!("{ch}a"), format!("a{ch}"), format!("a{ch}b")] {
            run.step(1);
            let rl = RateLimiter::new(RateLimitConfig::new(5, 1).unwrap());
            let ok = rl.check_rate_limit(&k);
            if ok == ch.is_control() || rl.active_count() != usize::from(ok) {
                run.violation(format!("key {k:?}"), format!("allowed={ok} tracked={}", rl.active_count()));
            }
            run.state(&k);
        }
    });
    for n in [0usize, 1, 255, 256, 257, 300, 5000] {
        let k = "k".repeat(n);
        let before = rl.active_count();
        let ok = rl.check_rate_limit(&k);
        run.step(1);
        if ok != (n <= 256) || rl.active_count() != before + usize::from(n <= 256) {
            run.violation(format!("key length {n}"), format!("allowed={ok}"));
        }
    }
}

/// Memory is bounded: at most 100 000 keys are tracked; tracked keys keep working.
fn table_cap(run: &Run) {
    vclock::reset();
    let rl = RateLimiter::new(RateLimitConfig::new(100, 1).unwrap());
    for i in 0..100_200u32 {
        let ok = rl.check_rate_limit(&format!("k{i}"));
        run.step(1);
        if ok != (i < 100_000) {
            run.violation(format!("tracked key #{i}"), format!("allowed={ok}"));
            return;
        }
    }
    if rl.active_count() != 100_000 || !rl.check_rate_limit("k5") {
        run.violation("tracked keys at the cap", format!("{} tracked", rl.active_count()));
    }
    rl.reset("k7");
    if !rl.check_rate_limit("new") || rl.check_rate_limit("new2") {
        run.violation("slot reuse at the cap", "a freed slot must admit exactly one new key");
    }
}

/// Idle keys are dropped by ordinary traffic, without an explicit cleanup call,
/// and only idle ones: an active key keeps its spent budget.
fn auto_cleanup(run: &Run) {
    vclock::reset();
    let rl = RateLimiter::new(RateLimitConfig::new(2, 86_400).unwrap().with_idle_timeout(10));
    for i in 0..50 {
        rl.check_rate_limit(&format!("idle{i}"));
    }
    for step in 0..3000u32 {
        vclock::advance_ms(9_000 / 900);
        let ok = rl.check_rate_limit("busy");
        run.step(1);
        if ok != (step < 2) {
            run.violation(format!("busy key step {step}"), format!("allowed={ok} with a budget of 2 per day"));
            return;
        }
    }
    if rl.active_count() != 1 {
        run.violation("automatic cleanup", format!("{} keys still tracked after 30 s of traffic with a 10 s idle timeout", rl.active_count()));
    }
}

/// A limiter in front of digest authentication: one budget per source, whatever
/// port, address form or stated host its requests carry.
fn guarded(run: &Run) {
    use sip_auth::*;
    use sip_core::{Headers, Method, Request, RequestLine, SipUri};
    // Via values and the source they stand for
    let vias = [
        ("SIP/2.0/UDP 10.0.0.1;branch=z9hG4bKa", 0),
        ("SIP/2.0/UDP 10.0.0.1:5060;branch=z9hG4bKb", 0),
        ("SIP/2.0/TCP 10.0.0.1:5999;rport;branch=z9hG4bKc", 0),
        ("SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKd;received=10.0.0.1;rport=7", 0),
        ("SIP/2.0/UDP 10.0.0.2:5060;branch=z9hG4bKe", 1),
        ("SIP/2.0/UDP 10.0.0.1:5060;received=10.0.0.2;branch=z9hG4bKf", 1),
        ("SIP/2.0/TLS [2001:db8::1];branch=z9hG4bKg", 2),
        ("SIP/2.0/TLS [2001:db8::1]:5061;branch=z9hG4bKh", 2),
        ("SIP/2.0/UDP gw.example;received=2001:db8::1;branch=z9hG4bKi", 2),
    ];
    let len = run.pick(4, 5);
    for (proxy, with) in [(false, false), (true, false), (false, true), (true, true)] {
        sequences(run, vias.len(), len, |seq| {
            vclock::reset();
            let s = DigestAuthenticator::new("r", MemoryCredentialStore::new()).with_proxy_auth(proxy).with_rate_limiter(RateLimiter::new(RateLimitConfig::new(2, 3600).unwrap()));
            let mut used = [0; 3];
            for (k, &v) in seq.iter().enumerate() {
                let (via, src) = vias[v];
                let mut h = Headers::new();
                h.push("Via", via).unwrap();
                h.push("Via", "SIP/2.0/UDP 10.9.9.9;branch=z9hG4bKz").unwrap();
                if with {
                    h.push(if proxy { "Proxy-Authorization" } else { "Authorization" }, "Digest username=\"u\", realm=\"r\", nonce=\"n\", uri=\"sip:h\", response=\"0\", opaque=\"o\"").unwrap();
                }
                let r = Request::new(RequestLine::new(Method::Register, SipUri::parse("sip:h").unwrap()), h, bytes::Bytes::new()).unwrap();
                let got = s.verify(&r, r.headers());
                let refused = got.as_ref().is_err_and(|e| e.to_string().contains("rate limit"));
                used[src] += 1;
                run.step(1);
                run.check(refused == (used[src] > 2), || format!("authenticator proxy {proxy} credentials {with} after {:?}", seq[..=k].iter().map(|&i| vias[i].0).collect::<Vec<_>>()), || format!("{got:?} for request {} of its source", used[src]));
            }
            run.state(&("guarded", proxy, with, used));
            run.trace();
        });
    }
}
