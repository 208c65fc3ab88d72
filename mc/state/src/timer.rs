//! P15: session timers under a controlled clock; negotiation of intervals.
use common::{product, sequences, vclock, Run};
use sip_core::SipUri;
use sip_dialog::session_timer_manager::*;
use sip_dialog::*;
use std::time::Duration;
use tokio::time::{sleep, sleep_until, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// dialog, seconds, whether we refresh, through refresh_timer
    Start(usize, u64, bool, bool),
    Stop(usize),
    Clear,
    /// Let 50 s pass and everything due happen
    Wait,
    /// Let the time of the next event come; the following operation happens at that very moment
    Until,
}
use Op::*;
const OPS: [Op; 9] = [Start(0, 100, true, false), Wait, Until, Start(0, 200, false, true), Start(1, 100, true, false), Stop(0), Clear, Start(0, 100, false, false), Start(1, 200, true, true)];
fn id(i: usize) -> DialogId {
    DialogId::unchecked_new("c", "l", format!("r{i}"))
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Due {
    at: u64,
    dialog: usize,
    expired: bool,
}
#[derive(Clone, Default)]
struct Model {
    due: Vec<Due>,
    expiry: [Option<u64>; 2],
}
/// Timers fire within this many milliseconds after they are due.
const SLACK: u64 = 2;

/// Seeds whose first choices among ready branches are all patterns of `bits` bits.
fn seeds(bits: u32) -> Vec<u64> {
    let mut out = vec![None; 1 << bits];
    let mut n = 0u64;
    while out.iter().any(|o| o.is_none()) && n < 100_000 {
        let rt = runtime(n);
        let p = rt.block_on(async { (0..bits).fold(0usize, |a, _| a << 1 | tokio::macros::support::thread_rng_n(2) as usize) });
        out[p].get_or_insert(n);
        n += 1;
    }
    out.into_iter().flatten().collect()
}
fn runtime(seed: u64) -> tokio::runtime::Runtime {
    let mut b = tokio::runtime::Builder::new_current_thread();
    b.enable_time().start_paused(true).rng_seed(tokio::runtime::RngSeed::from_bytes(&seed.to_le_bytes()));
    b.build().unwrap()
}

async fn history(run: &Run, seq: &[usize], seed: u64) {
    let m = SessionTimerManager::new();
    let mut rx = m.subscribe().await;
    let t0 = Instant::now();
    let now = || (Instant::now() - t0).as_millis() as u64;
    let mut model = Model::default();
    let mut settled = true;
    for k in 0..seq.len() + 1 {
        let key = || format!("timers seed {seed} ops {:?}", seq[..(k + 1).min(seq.len())].iter().map(|&i| OPS[i]).collect::<Vec<_>>());
        // what has happened since the last step
        let mut seen = vec![];
        while let Ok(e) = rx.try_recv() {
            let (d, expired) = match e {
                SessionTimerEvent::RefreshNeeded(i) => (i, false),
                SessionTimerEvent::SessionExpired(i) => (i, true),
            };
            seen.push(((0..2).find(|&i| id(i) == d).unwrap(), expired));
        }
        let t = now();
        let mut last = 0;
        for (d, expired) in &seen {
            match model.due.iter().position(|e| e.dialog == *d && e.expired == *expired && e.at <= t) {
                Some(i) => {
                    let e = model.due.remove(i);
                    if e.at < last {
                        run.violation(key(), format!("events out of order: {seen:?}"));
                        return;
                    }
                    last = e.at;
                    if e.expired {
                        model.expiry[*d] = None;
                    }
                }
                None => {
                    run.violation(key(), format!("at {t} ms event {} of dialog {d}, expected only {:?}", if *expired { "expired" } else { "refresh" }, model.due));
                    return;
                }
            }
        }
        if let Some(e) = model.due.iter().find(|e| e.at + if settled { SLACK } else { SLACK * 2 } < t) {
            run.violation(key(), format!("at {t} ms no event {e:?}"));
            return;
        }
        // what the manager says
        let mut live = 0..=0;
        for d in 0..2 {
            let maybe = model.expiry[d].is_some_and(|e| e <= t);
            let has = m.has_timer(&id(d));
            let left = m.time_remaining(&id(d)).map(|r| r.as_millis() as u64);
            let want = model.expiry[d].map(|e| e.saturating_sub(t));
            let ok = if maybe { left.unwrap_or(0) <= SLACK } else { has == want.is_some() && left.is_some() == has && left.unwrap_or(0).abs_diff(want.unwrap_or(0)) <= SLACK };
            run.check(ok, key, || format!("dialog {d} at {t} ms: timer {has}, {left:?} ms left, expected {want:?}"));
            live = *live.start() + (want.is_some() && !maybe) as usize..=*live.end() + want.is_some() as usize;
        }
        run.check(live.contains(&m.active_count()), key, || format!("{} timers, expected {live:?}", m.active_count()));
        run.state(&(model.due.iter().map(|e| (e.at.saturating_sub(t), e.dialog, e.expired)).collect::<Vec<_>>(), model.expiry.map(|e| e.map(|e| e.saturating_sub(t)))));
        run.step(1);
        if k == seq.len() {
            break;
        }
        settled = true;
        match OPS[seq[k]] {
            Start(d, secs, refresher, again) => {
                let f = if again { SessionTimerManager::refresh_timer } else { SessionTimerManager::start_timer };
                f(&m, id(d), Duration::from_secs(secs), refresher);
                model.due.retain(|e| e.dialog != d);
                if refresher {
                    model.due.push(Due { at: t + secs * 500, dialog: d, expired: false });
                }
                model.due.push(Due { at: t + secs * 1000, dialog: d, expired: true });
                model.expiry[d] = Some(t + secs * 1000);
                model.due.sort();
            }
            Stop(d) => {
                m.stop_timer(&id(d));
                model.due.retain(|e| e.dialog != d);
                model.expiry[d] = None;
            }
            Clear => {
                m.clear();
                model = Model::default();
            }
            Wait => {
                sleep(Duration::from_secs(50)).await;
                sleep(Duration::from_millis(SLACK + 3)).await;
            }
            Until => {
                if let Some(e) = model.due.first() {
                    settled = false;
                    sleep_until(t0 + Duration::from_millis(e.at)).await;
                }
            }
        }
    }
    run.trace();
}

fn capacity(run: &Run) {
    runtime(1).block_on(async {
        let m = SessionTimerManager::new();
        let mut rx = m.subscribe().await;
        for i in 0..10_000 {
            m.start_timer(id(i), Duration::from_secs(100), false);
        }
        sleep(Duration::from_secs(1)).await;
        let key = || "timers at the limit".to_string();
        m.start_timer(id(10_000), Duration::from_secs(100), false);
        run.check(!m.has_timer(&id(10_000)) && m.active_count() == 10_000, key, || "a timer beyond the limit".to_string());
        m.refresh_timer(id(7), Duration::from_secs(200), false);
        run.check(m.has_timer(&id(7)) && m.active_count() == 10_000, key, || "no refresh at the limit".to_string());
        m.stop_timer(&id(8));
        m.start_timer(id(10_000), Duration::from_secs(300), false);
        run.check(m.has_timer(&id(10_000)), key, || "no timer in the place of a stopped one".to_string());
        sleep(Duration::from_secs(150)).await;
        let mut n = 0;
        while let Ok(e) = rx.try_recv() {
            n += 1;
            let bad = [7, 8, 10_000].iter().any(|&i| e == SessionTimerEvent::SessionExpired(id(i)));
            run.check(!bad && matches!(e, SessionTimerEvent::SessionExpired(_)), key, || format!("event {e:?}"));
        }
        run.check(n == 9_998, key, || format!("{n} expired"));
    });
    run.trace();
}

fn negotiation(run: &Run) {
    let v = [0u64, 1, 89, 90, 91, 120, 300, 1799, 1800, 1801, 86_400, 86_401, u32::MAX as u64, 1 << 33];
    let s = Duration::from_secs;
    product(run, &[v.len(), v.len(), v.len() + 1, v.len() + 1], |x| {
        let (req, local) = (v[x[0]], v[x[1]]);
        let opt = |i: usize| if i == 0 { None } else { Some(v[i - 1]) };
        let (remote, pref) = (opt(x[2]), opt(x[3]));
        let key = || format!("negotiation requested {req} local {local} remote {remote:?} preferred {pref:?}");
        let g = negotiate_session_expires(s(req), s(local), remote.map(s), pref.map(s));
        let min = local.max(remote.unwrap_or(0));
        let want = if req < min { Err(s(min)) } else { Ok(s(req.min(pref.unwrap_or(req).max(min)))) };
        run.check(g == want, key, || format!("{g:?}, expected {want:?}"));
        let g = validate_session_expires(s(req), remote.map(s));
        let m = remote.unwrap_or(90);
        let want = if req < m { Err(s(m)) } else { Ok(s(req)) };
        run.check(g == want, key, || format!("validation {g:?}, expected {want:?}"));
        run.state(&("negotiation", x));
        run.step(2);
        run.trace();
    });
    for p in [None, Some("uac"), Some("uas"), Some("UAC"), Some("UAS"), Some("Uac"), Some("uaS"), Some(""), Some("x")] {
        let key = || format!("refresher {p:?}");
        let (a, b) = (determine_refresher_role(p, true), determine_refresher_role(p, false));
        run.check(a != b, key, || format!("caller refreshes: {a}, callee: {b}"));
        if let Some("uac" | "uas") = p.map(|p| p.to_ascii_lowercase()).as_deref() {
            run.check(a == p.unwrap().eq_ignore_ascii_case("uac"), key, || format!("caller refreshes: {a}"));
        }
        run.state(&("role", p));
        run.step(2);
    }
    // a dialog's own interval, and when it is due
    let u = |s: &str| SipUri::parse(s).unwrap();
    for e in v.iter().copied().chain([(1 << 32) + 100, (1 << 32) + 90, u64::MAX / 2]) {
        let mut d = Dialog::unchecked_new(id(0), DialogStateType::Confirmed, u("sip:a@h"), u("sip:b@h"), u("sip:b@d"), 1, 0, None, vec![], false, None, None, true);
        let key = || format!("interval {e}");
        run.check(!d.needs_refresh(s(1 << 40)), key, || "a refresh without an interval".to_string());
        let ok = d.set_session_expires(s(e)).is_ok();
        let want = (90..=86_400).contains(&e);
        run.check(ok == want && d.session_expires() == want.then_some(s(e)), key, || format!("accepted {ok}, {:?}", d.session_expires()));
        if want {
            for t in 0..=e + 1 {
                let g = d.needs_refresh(s(t));
                run.check(if t * 2 < e { !g } else { t * 3 < e * 2 || g }, key, || format!("after {t}: refresh {g}"));
            }
        }
        run.state(&("interval", e));
        run.step(1);
        run.trace();
    }
    for e in v {
        let g = calculate_refresh_time(s(e));
        run.check(g == s(e) / 2, || format!("refresh time of {e}"), || format!("{g:?}"));
    }
}

pub fn p15(run: &Run) {
    vclock::reset();
    run.note("rule", "every history of starts, refreshes, stops and waits up to the depth for two dialogs, under every pattern of the runtime's first choices among simultaneously ready branches; negotiation over all combinations of boundary values");
    run.assume("one thread of execution with tokio's paused clock; intervals of whole seconds; events may come up to 2 ms late; when an operation happens at the very moment a timer is due, the event may precede the operation but not follow it");
    negotiation(run);
    capacity(run);
    let bits = run.pick(5, 6);
    let seeds = seeds(bits);
    run.check(seeds.len() == 1 << bits, || "seeds".to_string(), || "not every pattern of choices has a seed".to_string());
    run.note("patterns of choices", seeds.len());
    let go = |depth: usize, ops: usize, seeds: &[u64]| {
        sequences(run, ops, depth, |seq| {
            // no two operations can meet without a moment to meet at
            let n = if seq.iter().any(|&o| OPS[o] == Until) { seeds.len() } else { 1 };
            for &s in &seeds[..n] {
                runtime(s).block_on(history(run, seq, s));
                if run.stopped() {
                    return;
                }
            }
        });
    };
    let depth = run.pick(6, 7);
    run.note("history depth", depth);
    go(depth, 6, &seeds);
    go(run.pick(5, 6), OPS.len(), &seeds);
}
