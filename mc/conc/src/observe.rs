//! P23: rate-limited metric emission.
use crate::lin::{programs, SC};
use common::{par_for, vclock, Run};
use sip_observe::*;
use std::cell::RefCell;
use std::num::NonZeroU64;
use std::sync::Arc;
use std::time::Duration;
use tracing::field::{Field, Visit};

thread_local!(static LOG: RefCell<Vec<(u64, String)>> = const { RefCell::new(Vec::new()) });
fn take() -> Vec<(u64, String)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn now_ns() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos() as u64
}
/// Writes every event down with the time it arrived.
struct Sink;
struct Fields(String);
impl Visit for Fields {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        self.0.push_str(&format!(" {f}={v:?}"));
    }
}
impl tracing::Subscriber for Sink {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut f = Fields(String::new());
        e.record(&mut f);
        LOG.with(|l| l.borrow_mut().push((now_ns(), f.0)));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

const TRANSPORTS: [TransportLabel; 7] = [TransportLabel::Udp, TransportLabel::Tcp, TransportLabel::Tls, TransportLabel::Sctp, TransportLabel::TlsSctp, TransportLabel::Ws, TransportLabel::Wss];
const STAGES: [(&str, StageLabel); 10] = [
    ("accept", StageLabel::Accept), ("buffer_overflow", StageLabel::BufferOverflow), ("dispatch", StageLabel::Dispatch), ("framing_error", StageLabel::FramingError), ("handshake", StageLabel::Handshake),
    ("read", StageLabel::Read), ("recv", StageLabel::Recv), ("session_limit", StageLabel::SessionLimit), ("truncate", StageLabel::Truncate), ("write", StageLabel::Write),
];
const KINDS: usize = 7;
fn fire(m: &dyn TransportMetrics, kind: usize, t: TransportLabel) {
    match kind {
        0 => m.on_packet_received(t),
        1 => m.on_packet_sent(t),
        2 => m.on_error(t, StageLabel::Read),
        3 => m.on_accept(t),
        4 => m.on_connect(t),
        5 => m.on_latency(t, OpLabel::Recv, 17),
        _ => m.on_rate_limited(t),
    }
}
/// What an emitted event of this kind has to say.
fn says(kind: usize, t: TransportLabel, text: &str) -> bool {
    let has = |w: &str| text.split_whitespace().any(|x| x == w);
    has(&format!("transport={t}")) && (kind != 2 || has("stage=read")) && (kind != 5 || (has("op=recv") && has("nanos=17")))
}

/// (interval, every n-th)
type Cfg = (Duration, u64);
fn limiter(c: Cfg) -> RateLimitedTracingTransportMetrics {
    RateLimitedTracingTransportMetrics::new(c.0, NonZeroU64::new(c.1).unwrap())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Event(usize),
    Pass(u64),
}

pub fn p23(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 and 3 threads reporting events while time passes, every schedule up to the preemption bound: never more events than the time that passed allows, at least one, and the n-th event count unbroken afterwards");
    run.assume(SC);
    run.assume("the clock does not run backwards; minimum intervals beyond the age of the epoch only limit, the first event need not be emitted");
    // before anything is installed metrics go nowhere; the first sink stays
    static FIRST: RateCount = RateCount(std::sync::Mutex::new(0));
    static SECOND: RateCount = RateCount(std::sync::Mutex::new(0));
    for k in 0..KINDS {
        fire(transport_metrics(), k, TransportLabel::Udp);
    }
    let r: Vec<bool> = [&FIRST, &SECOND, &FIRST].iter().map(|s| set_transport_metrics(Arc::new(Fwd(s)))).collect();
    for k in 0..KINDS {
        fire(transport_metrics(), k, TransportLabel::Udp);
    }
    let n = (*FIRST.0.lock().unwrap(), *SECOND.0.lock().unwrap());
    run.check(r == [true, false, false] && n == (KINDS, 0), || "install-once".into(), || format!("installing three sinks gave {r:?}; the first saw {} events, the second {}", n.0, n.1));
    tracing::subscriber::set_global_default(Sink).expect("one subscriber");
    labels(run);

    // every sequence of events and pauses against the rule
    let ms = Duration::from_millis;
    let cfgs: Vec<Cfg> = vec![(ms(0), 1), (ms(0), 2), (ms(0), 3), (ms(5), 1), (ms(5), 2), (ms(5), 3), (ms(1), 10), (Duration::from_nanos(1), 1), (Duration::from_secs(3600), 2)];
    let depth = run.pick(7, 9);
    for &cfg in &cfgs {
        let i = cfg.0.as_nanos() as u64;
        let ops: Vec<Op> = [Op::Event(0), Op::Event(2), Op::Event(5)].into_iter().chain([i.saturating_sub(1), i, i / 2 + 1, 3 * i].into_iter().filter(|n| *n > 0).map(Op::Pass)).collect();
        common::sequences(run, ops.len(), depth - (cfg.1 > 3) as usize, |seq| {
            vclock::reset();
            take();
            run.state(&(cfg, seq));
            let m = limiter(cfg);
            let (mut count, mut last): (u64, Option<u64>) = (0, None);
            for &o in seq {
                run.step(1);
                match ops[o] {
                    Op::Pass(n) => vclock::advance_ns(n),
                    Op::Event(k) => {
                        let t = TRANSPORTS[(count as usize) % 7];
                        let now = now_ns();
                        let want = count % cfg.1 == 0 && last.is_none_or(|l| now - l >= i);
                        count += 1;
                        if want {
                            last = Some(now);
                        }
                        fire(&m, k, t);
                        let got = take();
                        let ok = got.len() == want as usize && got.iter().all(|g| says(k, t, &g.1));
                        run.check(ok, || format!("emit:{}", if got.len() > want as usize { "too-many" } else if want { "missed-or-wrong" } else { "wrong" }), || {
                            format!("interval {:?}, every {}th, {:?}: the last event emitted {got:?}, expected {}", cfg.0, cfg.1, seq.iter().map(|&o| ops[o]).collect::<Vec<_>>(), want as usize)
                        });
                    }
                }
            }
        });
    }
    // every kind, every transport; the configuration is reported as given
    for k in 0..KINDS {
        for t in TRANSPORTS {
            for c in [(ms(0), 1), (ms(5), 2), (Duration::MAX, u64::MAX)] {
                run.step(1);
                vclock::reset();
                take();
                let m = limiter(c);
                fire(&m, k, t);
                let got = take();
                run.check(c.0 == Duration::MAX || (got.len() == 1 && says(k, t, &got[0].1)), || "emit:fields".into(), || format!("kind {k} over {t} emitted {got:?}"));
                run.check(m.min_interval() == c.0 && m.sample_every().get() == c.1, || "config".into(), || format!("{c:?}"));
            }
            let plain = TracingTransportMetrics;
            fire(&plain, k, t);
            let got = take();
            run.check(got.len() == 1 && says(k, t, &got[0].1), || "emit:plain".into(), || format!("kind {k} over {t} emitted {got:?}"));
        }
    }
    // a very long interval is still an interval
    for i in [Duration::from_nanos(u64::MAX), Duration::from_nanos(u64::MAX) + Duration::from_nanos(1), Duration::from_nanos(u64::MAX) + ms(1), Duration::from_secs(u64::MAX / 2), Duration::MAX] {
        run.step(1);
        vclock::reset();
        take();
        let m = limiter((i, 1));
        for _ in 0..4 {
            fire(&m, 0, TransportLabel::Udp);
            vclock::advance_ms(1000);
        }
        let got = take();
        run.check(got.len() <= 1, || "emit:long-interval".into(), || format!("minimum interval {i:?}: {} events within seconds", got.len()));
    }

    // interleavings
    let bound = run.pick(3, 4);
    run.note("preemption bound", bound);
    let ops = [Op::Event(0), Op::Event(3), Op::Pass(2_500_000), Op::Pass(5_000_000)];
    let mut progs = programs(ops.len(), 2, 2);
    progs.extend(programs(ops.len(), 3, 1));
    progs.extend(programs(3, 2, 3));
    if run.thorough() {
        progs.extend(programs(ops.len(), 2, 3));
        progs.extend(programs(3, 3, 2));
        progs.extend(programs(ops.len(), 4, 1));
    }
    run.note("programs", progs.len());
    let schedules = std::sync::atomic::AtomicU64::new(0);
    let cc: [(Cfg, bool); 6] = [((ms(5), 1), false), ((ms(5), 2), false), ((ms(0), 1), false), ((ms(0), 2), false), ((ms(5), 1), true), ((ms(5), 3), true)];
    par_for(run, progs.len(), |pi| {
        let prog = &progs[pi];
        for (cfg, warm) in cc {
            schedules.fetch_add(one(run, cfg, warm, &ops, prog, bound), std::sync::atomic::Ordering::Relaxed);
        }
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
}

/// One program: every schedule of it.
fn one(run: &Run, cfg: Cfg, warm: bool, ops: &[Op], prog: &[Vec<usize>], bound: usize) -> u64 {
    let i = cfg.0.as_nanos() as u64;
    let total: u64 = prog.iter().flatten().filter(|&&o| matches!(ops[o], Op::Event(_))).count() as u64;
    let passes = prog.iter().flatten().any(|&o| matches!(ops[o], Op::Pass(_)));
    struct S {
        m: RateLimitedTracingTransportMetrics,
        start: u64,
    }
    let mk = || {
        vclock::reset();
        let m = limiter(cfg);
        if warm {
            fire(&m, 0, TransportLabel::Udp);
            vclock::advance_ns(i);
        }
        take();
        S { m, start: now_ns() }
    };
    let bodies: Vec<Box<dyn Fn(&S) + '_>> = prog
        .iter()
        .map(|l| {
            Box::new(move |s: &S| {
                for &o in l {
                    mcrt::yield_point();
                    match ops[o] {
                        Op::Event(k) => fire(&s.m, k, TransportLabel::Tcp),
                        Op::Pass(n) => vclock::advance_ns(n),
                    }
                }
            }) as Box<dyn Fn(&S)>
        })
        .collect();
    let threads: Vec<&dyn Fn(&S)> = bodies.iter().map(|b| b.as_ref() as &dyn Fn(&S)).collect();
    let name = || format!("interval {:?}, every {}th{}, threads {}", cfg.0, cfg.1, if warm { ", after one event and a pause" } else { "" }, prog.iter().map(|t| t.iter().map(|&o| format!("{:?}", ops[o])).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | "));
    let st = mcrt::explore(bound, 2000, &mk, &threads, &mut |s, e| {
        run.trace();
        run.step(1);
        if e.end != mcrt::End::Done {
            run.violation(format!("stuck: {}", name()), format!("{}: schedule {:?} ends {:?}", name(), e.schedule, e.end));
            return false;
        }
        let got = take();
        run.state(&(cfg, warm, prog, &got));
        let sampled = { let b = warm as u64; (b..b + total).filter(|c| c % cfg.1 == 0).count() };
        let mut bad = None;
        // when an event arrives, the time that passed allowed that many
        for (n, (t, text)) in got.iter().enumerate() {
            if i > 0 && n as u64 > (t - s.start) / i {
                bad = Some(("too-close", format!("event {} after {} ns", n + 1, t - s.start)));
            }
            if !text.contains("transport=tcp") {
                bad = Some(("fields", text.clone()));
            }
        }
        if i == 0 && got.len() != sampled {
            bad = Some(("sampling", format!("{} of {sampled} sampled events emitted", got.len())));
        }
        if i > 0 && (got.len() > sampled || (got.is_empty() && sampled > 0)) {
            bad = Some(("sampling", format!("{} events emitted, {sampled} sampled", got.len())));
        }
        if i > 0 && !passes && sampled > 0 && got.len() != 1 {
            bad = Some(("sampling", format!("{} events emitted while no time passed", got.len())));
        }
        // the count goes on where it was
        if bad.is_none() {
            for c in 0..cfg.1 + 1 {
                vclock::advance_ns(i);
                fire(&s.m, 1, TransportLabel::Ws);
                let n = take().len();
                let want = ((warm as u64 + total + c) % cfg.1 == 0) as usize;
                if n != want {
                    bad = Some(("count-lost", format!("afterwards, event {} of a quiet period emitted {n}, expected {want}", c + 1)));
                    break;
                }
            }
        }
        if let Some((k, d)) = bad {
            run.violation(format!("{k}: {}", name()), format!("{}: {d} (schedule {:?})", name(), e.schedule));
            return false;
        }
        true
    });
    st.schedules
}

struct RateCount(std::sync::Mutex<usize>);
struct Fwd(&'static RateCount);
impl Fwd {
    fn hit(&self) {
        *self.0 .0.lock().unwrap() += 1;
    }
}
impl TransportMetrics for Fwd {
    fn on_packet_received(&self, _: TransportLabel) {
        self.hit()
    }
    fn on_packet_sent(&self, _: TransportLabel) {
        self.hit()
    }
    fn on_error(&self, _: TransportLabel, _: StageLabel) {
        self.hit()
    }
    fn on_accept(&self, _: TransportLabel) {
        self.hit()
    }
    fn on_connect(&self, _: TransportLabel) {
        self.hit()
    }
    fn on_latency(&self, _: TransportLabel, _: OpLabel, _: u64) {
        self.hit()
    }
    fn on_rate_limited(&self, _: TransportLabel) {
        self.hit()
    }
}

fn safe(s: &str) -> bool {
    !s.is_empty() && s.len() <= MAX_LABEL_LEN && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.".contains(&b))
}
/// Labels: printed and read the same, short and plain; anything else is refused with the reason.
fn labels(run: &Run) {
    let t: Vec<&str> = vec!["udp", "tcp", "tls", "sctp", "tls-sctp", "ws", "wss"];
    for (x, l) in TRANSPORTS.iter().enumerate() {
        run.check(l.as_str() == t[x] && l.to_string() == t[x] && TransportLabel::try_from(t[x]) == Ok(*l) && safe(l.as_str()), || "label".into(), || format!("{l:?} prints {l}"));
    }
    for (s, l) in STAGES {
        run.check(l.as_str() == s && l.to_string() == s && StageLabel::try_from(s) == Ok(l) && safe(s), || "label".into(), || format!("{l:?} prints {l}"));
    }
    for (s, l) in [("accept", OpLabel::Accept), ("recv", OpLabel::Recv)] {
        run.check(l.as_str() == s && l.to_string() == s && OpLabel::try_from(s) == Ok(l), || "label".into(), || format!("{l:?} prints {l}"));
    }
    let judge = |s: &str| {
        run.step(3);
        run.state(&s);
        let known = |k: &[&str]| k.contains(&s);
        let all = [
            TransportLabel::try_from(s).map(|l| l.to_string()).map_err(|e| (e, known(&t))),
            StageLabel::try_from(s).map(|l| l.to_string()).map_err(|e| (e, STAGES.iter().any(|x| x.0 == s))),
            OpLabel::try_from(s).map(|l| l.to_string()).map_err(|e| (e, known(&["accept", "recv"]))),
        ];
        for r in &all {
            let ok = match r {
                Ok(l) => l == s,
                Err((_, true)) => false,
                Err((LabelError::TooLong { len, max }, _)) => *max == MAX_LABEL_LEN && s.len() > *max && *len == s.len(),
                Err((LabelError::InvalidChar { index, byte }, _)) => s.len() <= MAX_LABEL_LEN && s.as_bytes().get(*index) == Some(byte) && !safe(&s[..].chars().map(|c| if c.is_ascii() { c } else { '\n' }).collect::<String>()),
                Err((LabelError::UnknownValue(v), _)) => v == s && (s.is_empty() || safe(s)),
            };
            run.check(ok, || "label-read".into(), || format!("label {s:?}: {r:?}"));
        }
    };
    common::token_strings(run, &["udp", "tls", "-", "sctp", "ws", "s", "read", "_", " ", "\n", "\u{e9}", "U", "=", ".", "accept"], run.pick(4, 5), |s| judge(s));
    for n in [0, 1, 63, 64, 65, 66, 200] {
        judge(&"a".repeat(n));
        judge(&format!("{}\n", "a".repeat(n)));
    }
    for b in 0..128u8 {
        judge(&(b as char).to_string());
    }
}
