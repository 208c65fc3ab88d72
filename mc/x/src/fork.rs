//! P28: the real ProxyService and ProxyContext for every history of branch
//! responses, transport errors and passing time up to a depth, against a
//! reference fork; and every interleaving, at the granularity of lock
//! acquisitions, of responses handled at the same time by parallel tasks.
use crate::manager::rt;
use bytes::Bytes;
use common::{sequences, Run};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_proxy::service::ProxyService;
use sip_proxy::stateful::{ForkMode, ProxyContext, ProxyTarget};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

fn invite() -> Request {
    let mut h = Headers::new();
    for (n, v) in [
        ("Via", "SIP/2.0/UDP edge.example.net;branch=z9hG4bKedge"),
        ("Via", "SIP/2.0/TCP client.example.org:5070;branch=z9hG4bKclient;rport"),
        ("Route", "<sip:next.example.com;lr>"),
        ("From", "<sip:alice@example.com>;tag=a"),
        ("To", "<sip:bob@example.com>"),
        ("Call-ID", "fork-1"),
        ("CSeq", "7 INVITE"),
        ("Max-Forwards", "70"),
        ("Require", "100rel"),
        ("Content-Type", "application/sdp"),
        ("Content-Length", "4"),
    ] {
        h.push(n, v).unwrap();
    }
    Request::new(RequestLine::new(Method::Invite, SipUri::parse("sip:bob@example.com").unwrap()), h, Bytes::from_static(b"v=0\n")).unwrap()
}

fn response(code: u16, branch: usize) -> Response {
    let mut h = Headers::new();
    for (n, v) in [("Via", "SIP/2.0/UDP proxy.example.com;branch=z9hG4bKx"), ("Via", "SIP/2.0/UDP edge.example.net;branch=z9hG4bKedge"), ("Call-ID", "fork-1"), ("CSeq", "7 INVITE")] {
        h.push(n, v).unwrap();
    }
    h.push("X-From", branch.to_string()).unwrap();
    if code == 401 || code == 407 {
        // one challenge of its own and one that all branches send
        let n = if code == 401 { "WWW-Authenticate" } else { "Proxy-Authenticate" };
        h.push(n, format!("Digest realm=\"r{branch}\",nonce=\"n\"")).unwrap();
        h.push(n, "Digest realm=\"all\",nonce=\"n\"").unwrap();
    }
    Response::new(StatusLine::new(code, "X").unwrap(), h, Bytes::new()).unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// a response on a branch (one more than there are: an unknown branch)
    Resp(usize, u16),
    /// the transport reports a failure for a branch
    Error(usize),
    /// time passes (seconds)
    Pass(u64),
}

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum B {
    Trying,
    Proceeding,
    Cancelled,
    Done,
}

/// The reference.
#[derive(Clone, Debug)]
struct Ref {
    b: Vec<B>,
    timer: Vec<Option<u64>>,
    cancelled: Vec<bool>,
    finals: Vec<(usize, u16)>,
    decided: Option<u16>,
    now: u64,
    timer_c: u64,
}

/// What the reference says may go upstream.
#[derive(Debug, PartialEq)]
enum Up {
    Nothing,
    This,
    Best,
}

impl Ref {
    fn new(n: usize, timer_c: u64) -> Ref {
        Ref { b: vec![B::Trying; n], timer: vec![None; n], cancelled: vec![false; n], finals: vec![], decided: None, now: 0, timer_c }
    }
    fn on(&mut self, i: usize, code: u16) -> Up {
        if i >= self.b.len() || (self.b[i] == B::Done && !(200..300).contains(&code)) {
            return Up::Nothing;
        }
        if code < 200 {
            if self.b[i] == B::Trying || code > 100 {
                self.timer[i] = Some(self.now + self.timer_c);
            }
            if self.b[i] != B::Cancelled {
                self.b[i] = B::Proceeding;
            }
            return if code > 100 && self.decided.is_none() { Up::This } else { Up::Nothing };
        }
        self.b[i] = B::Done;
        if (200..300).contains(&code) {
            self.decided = Some(code);
            self.cancel();
            return Up::This;
        }
        if self.decided.is_some() {
            return Up::Nothing;
        }
        if code >= 600 {
            self.decided = Some(code);
            self.cancel();
            return Up::This;
        }
        self.finals.push((i, code));
        if self.b.iter().all(|b| *b == B::Done) {
            self.decided = Some(code);
            return Up::Best;
        }
        Up::Nothing
    }
    fn cancel(&mut self) {
        for b in &mut self.b {
            if *b != B::Done {
                *b = B::Cancelled;
            }
        }
    }
    fn error(&mut self, i: usize) -> Up {
        if i >= self.b.len() || matches!(self.b[i], B::Done | B::Cancelled) {
            return Up::Nothing;
        }
        self.on(i, 503)
    }
}

fn auth(r: &Response) -> Vec<String> {
    let mut v: Vec<String> = ["WWW-Authenticate", "Proxy-Authenticate"].iter().flat_map(|n| r.headers().get_all(n).map(move |v| format!("{n}: {v}"))).collect();
    v.sort();
    v
}

struct Live {
    service: ProxyService,
    ctx: Arc<ProxyContext>,
    rx: tokio::sync::mpsc::UnboundedReceiver<Response>,
    sent: Vec<(String, Request)>,
}

async fn live(n: usize) -> Live {
    let service = ProxyService::new();
    let targets = (0..n).map(|i| ProxyTarget::new(SipUri::parse(&format!("sip:bob@t{i}.example.com:{}", 5060 + i)).unwrap())).collect();
    let (ctx, rx, sent) = service.start_forking(invite(), targets, "proxy.example.com", "UDP", false, None, ForkMode::Parallel).await.unwrap();
    let sent = sent.into_iter().map(|(b, r)| (b.to_string(), r)).collect();
    Live { service, ctx, rx, sent }
}

/// A CANCEL is the request it cancels, but for its method.
fn cancel_of(sent: &[(String, Request)], c: &Request) -> Result<usize, String> {
    let via: Vec<&str> = c.headers().get_all("Via").collect();
    let Some(i) = sent.iter().position(|(_, r)| r.headers().get("Via") == via.first().copied()) else {
        return Err(format!("no request with the Via {via:?}"));
    };
    let r = &sent[i].1;
    let same = |n: &str| c.headers().get_all(n).collect::<Vec<_>>() == r.headers().get_all(n).collect::<Vec<_>>();
    let cseq = c.headers().get("CSeq");
    if via.len() != 1
        || c.method() != &Method::Cancel
        || c.uri().as_str() != r.uri().as_str()
        || cseq != Some("7 CANCEL")
        || !["From", "To", "Call-ID", "Route"].iter().all(|n| same(n))
        || !c.body().is_empty()
        || ["Content-Type", "Require", "Proxy-Require"].iter().any(|n| c.headers().get(n).is_some())
        || c.headers().get("Content-Length").is_some_and(|v| v.trim() != "0")
    {
        return Err(format!("{} {:?}", c.uri().as_str(), c.headers().iter().map(|h| format!("{}: {}", h.name(), h.value())).collect::<Vec<_>>()));
    }
    Ok(i)
}

fn show(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Resp(i, c) => format!("{c} on {i}"),
            Op::Error(i) => format!("error on {i}"),
            Op::Pass(s) => format!("{s}s pass"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// One response that went upstream is the one the reference lets pass.
fn right(up: &Up, r: &Ref, i: usize, code: u16, got: Option<&Response>) -> bool {
    match (up, got) {
        (Up::Nothing, None) => true,
        (Up::This, Some(g)) => g.code() == code && (g.headers().get("X-From") == Some(&i.to_string()) || g.headers().get("X-From").is_none()),
        (Up::Best, Some(g)) => {
            let class = r.finals.iter().map(|f| f.1 / 100).min().unwrap();
            let own: Option<usize> = g.headers().get("X-From").and_then(|v| v.parse().ok());
            let one_of = r.finals.iter().any(|f| f.1 == g.code() && own.is_none_or(|o| o == f.0));
            let mut want: Vec<String> = vec![];
            if g.code() == 401 || g.code() == 407 {
                for f in &r.finals {
                    want.extend(auth(&response(f.1, f.0)));
                }
            }
            want.sort();
            want.dedup();
            g.code() / 100 == class && one_of && auth(g) == want
        }
        _ => false,
    }
}

fn history(run: &Run, n: usize, ops: &[Op]) {
    rt().block_on(async {
        let mut l = live(n).await;
        let mut r = Ref::new(n, 180);
        for (k, op) in ops.iter().enumerate() {
            run.step(1);
            let key = || format!("{n} branches: {}", show(&ops[..=k]));
            let mut late: Vec<(Up, usize, u16)> = vec![];
            let (up, i, code, got, cancels) = match *op {
                Op::Resp(i, c) => {
                    let id = l.sent.get(i).map(|s| s.0.as_str()).unwrap_or("z9hG4bKnone").to_string();
                    let a = l.service.handle_branch_response(&l.ctx, &id, response(c, i)).await;
                    let cancels = a.cancels().to_vec();
                    (r.on(i, c), i, c, a.into_forward().map(|f| f.into_response()), cancels)
                }
                Op::Error(i) => {
                    let id = l.sent.get(i).map(|s| s.0.as_str()).unwrap_or("z9hG4bKnone").to_string();
                    let got = l.ctx.report_transport_error(&id).await;
                    let up = r.error(i);
                    if up != Up::Nothing {
                        // handed out both ways
                        late.push((if up == Up::Best { Up::Best } else { Up::This }, i, 503));
                    }
                    (up, i, 503, got, vec![])
                }
                Op::Pass(s) => {
                    tokio::time::sleep(Duration::from_secs(s)).await;
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    let end = r.now + s;
                    loop {
                        let next = (0..n).filter(|&i| r.b[i] == B::Proceeding && r.timer[i].is_some_and(|t| t <= end)).min_by_key(|&i| r.timer[i]);
                        let Some(i) = next else { break };
                        r.now = r.timer[i].take().unwrap();
                        let up = r.on(i, 408);
                        if up != Up::Nothing {
                            late.push((up, i, 408));
                        }
                    }
                    r.now = end;
                    (Up::Nothing, 0, 0, None, vec![])
                }
            };
            let said = |g: Option<&Response>| g.map(|g| format!("{} {:?} {:?}", g.code(), g.headers().get("X-From"), auth(g)));
            run.check(right(&up, &r, i, code, got.as_ref()), || format!("upstream {}", key()), || format!("want {up:?}, got {:?}; {r:?}", said(got.as_ref())));
            for (up, i, code) in late {
                let g = l.rx.try_recv().ok();
                let ok = right(&up, &r, i, code, g.as_ref());
                run.check(ok, || format!("upstream channel {}", key()), || format!("want {up:?} {code}, got {:?}", said(g.as_ref())));
                if let Some(g) = g.filter(|g| g.headers().get("X-From").is_none()) {
                    // made here: it finds its way back
                    let o = invite();
                    let ok = ["Via", "From", "Call-ID", "CSeq"].iter().all(|n| g.headers().get_all(n).eq(o.headers().get_all(n)));
                    run.check(ok, || format!("own response {}", key()), || format!("{:?}", g.headers()));
                }
            }
            let extra = l.rx.try_recv().ok();
            run.check(extra.is_none(), || format!("upstream channel extra {}", key()), || format!("{:?}", said(extra.as_ref())));
            let mut want: Vec<usize> = vec![];
            if let Op::Resp(..) = op {
                if up == Up::This && code >= 200 {
                    want = (0..n).filter(|&j| r.b[j] == B::Cancelled && !r.cancelled[j]).collect();
                    want.iter().for_each(|&j| r.cancelled[j] = true);
                }
            }
            let mut cs: Vec<Result<usize, String>> = cancels.iter().map(|c| cancel_of(&l.sent, c)).collect();
            cs.sort();
            run.check(cs == want.iter().map(|&j| Ok(j)).collect::<Vec<_>>(), || format!("cancels {}", key()), || format!("want {want:?}, got {cs:?}"));
            run.state(&(&r.b, r.decided, &r.cancelled, r.timer.iter().map(|t| t.map(|t| t - r.now.min(t))).collect::<Vec<_>>()));
            if run.stopped() {
                return;
            }
        }
        run.trace();
        run.sample(|| show(ops));
    })
}

// ---- parallel tasks --------------------------------------------------------

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// Every order in which the tasks made by `make` can take their steps; `end` is
/// called after each with the tasks' joint product and the schedule.
fn schedules<S>(make: impl Fn() -> (S, Vec<Pin<Box<dyn Future<Output = ()>>>>), end: impl Fn(S, &[usize], bool) -> bool) -> u64 {
    let mut path: Vec<(usize, usize)> = vec![]; // (chosen, of)
    let mut count = 0;
    loop {
        let (s, mut tasks) = make();
        let mut live: Vec<usize> = (0..tasks.len()).collect();
        let flags: Vec<Arc<Flag>> = tasks.iter().map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
        let (mut k, mut order, mut stuck) = (0, vec![], false);
        mcsync::set(true);
        while !live.is_empty() {
            let ready: Vec<usize> = live.iter().copied().filter(|&t| flags[t].0.load(Ordering::SeqCst)).collect();
            if ready.is_empty() {
                stuck = true;
                break;
            }
            if k == path.len() {
                path.push((0, ready.len()));
            }
            let t = ready[path[k].0];
            k += 1;
            order.push(t);
            flags[t].0.store(false, Ordering::SeqCst);
            let w = Waker::from(flags[t].clone());
            if let Poll::Ready(()) = tasks[t].as_mut().poll(&mut Context::from_waker(&w)) {
                live.retain(|&x| x != t);
            }
        }
        mcsync::set(false);
        drop(tasks);
        count += 1;
        if !end(s, &order, stuck) {
            return count;
        }
        while let Some((c, n)) = path.pop() {
            if c + 1 < n {
                path.push((c + 1, n));
                break;
            }
        }
        if path.is_empty() {
            return count;
        }
    }
}

type Shared = (Arc<Live>, Arc<Mutex<Vec<Response>>>, Arc<Mutex<Vec<Request>>>);

fn parallel(run: &Run, n: usize, tasks: &[Vec<(usize, u16)>]) {
    let key = || format!("{n} branches in parallel: {}", tasks.iter().map(|t| t.iter().map(|(i, c)| format!("{c} on {i}")).collect::<Vec<_>>().join(" then ")).collect::<Vec<_>>().join(" | "));
    let make = || {
        let w = Waker::noop();
        let Poll::Ready(l) = Box::pin(live(n)).as_mut().poll(&mut Context::from_waker(w)) else { panic!("setup blocks") };
        let s: Shared = (Arc::new(l), Default::default(), Default::default());
        let t = tasks
            .iter()
            .map(|ev| {
                let (s, ev) = (s.clone(), ev.clone());
                Box::pin(async move {
                    for (i, c) in ev {
                        let a = s.0.service.handle_branch_response(&s.0.ctx, &s.0.sent[i].0, response(c, i)).await;
                        s.2.lock().unwrap().extend(a.cancels().iter().cloned());
                        if let Some(f) = a.into_forward() {
                            s.1.lock().unwrap().push(f.into_response());
                        }
                    }
                }) as Pin<Box<dyn Future<Output = ()>>>
            })
            .collect();
        (s, t)
    };
    let all: Vec<(usize, u16)> = tasks.iter().flatten().copied().collect();
    let finals: Vec<u16> = all.iter().map(|x| x.1).filter(|c| *c >= 200).collect();
    let answered: Vec<bool> = (0..n).map(|i| all.iter().any(|x| x.0 == i && x.1 >= 200)).collect();
    let good = finals.iter().filter(|c| **c < 300).count();
    let seen = Mutex::new(BTreeMap::<Vec<u16>, u64>::new());
    let count = schedules(make, |s, order, stuck| {
        let got: Vec<u16> = s.1.lock().unwrap().iter().map(|r| r.code()).collect();
        let up: Vec<u16> = got.iter().copied().filter(|c| *c >= 200).collect();
        let bad = up.iter().filter(|c| **c >= 300).count();
        *seen.lock().unwrap().entry(got.clone()).or_default() += 1;
        let mut cs: Vec<Result<usize, String>> = s.2.lock().unwrap().iter().map(|c| cancel_of(&s.0.sent, c)).collect();
        cs.sort();
        let decided = !up.is_empty();
        let at_once = up.iter().any(|c| *c < 300 || *c >= 600);
        let mut why = vec![];
        if stuck {
            why.push("tasks wait for each other".to_string());
        }
        if up.iter().filter(|c| **c < 300).count() != good {
            why.push(format!("{good} 2xx received, upstream {up:?}"));
        }
        if bad > 1 || (bad == 1 && good > 0 && up.iter().any(|c| *c >= 300 && *c < 600)) {
            why.push(format!("upstream {up:?}"));
        }
        if answered.iter().all(|a| *a) && !decided {
            why.push("all branches answered, nothing upstream".into());
        }
        if !answered.iter().all(|a| *a) && good == 0 && !finals.iter().any(|c| *c >= 600) && decided {
            why.push(format!("a branch is unanswered, upstream {up:?}"));
        }
        if bad == 1 && good == 0 {
            // the best of what each branch said first
            let six = finals.iter().any(|c| *c >= 600);
            let class = finals.iter().map(|c| c / 100).filter(|c| *c < 6).min();
            let c = up[0] / 100;
            if !(c == 6 && six) && !(Some(c) == class && all.iter().filter(|x| x.1 >= 200).count() == n && !six) && all.iter().filter(|x| x.1 >= 200).count() == n {
                why.push(format!("upstream {up:?} of {finals:?}"));
            }
        }
        // whoever never answers is cancelled once; nobody twice
        let dup = cs.windows(2).any(|w| w[0] == w[1]) || cs.iter().any(|c| c.is_err());
        let open: Vec<usize> = (0..n).filter(|&i| !answered[i]).collect();
        let missing = at_once && open.iter().any(|&i| !cs.contains(&Ok(i)));
        if dup || missing || (!at_once && !cs.is_empty()) {
            why.push(format!("cancels {cs:?}, unanswered {open:?}"));
        }
        run.step(order.len() as u64);
        run.check(why.is_empty(), key, || format!("{}\nschedule {order:?}\nupstream {got:?}", why.join("; ")));
        why.is_empty() && !run.stopped()
    });
    run.traces(count);
    for s in seen.into_inner().unwrap().keys() {
        run.state(&("parallel", n, s));
    }
}

/// Which targets a fork goes to, and in what order cohorts are to be tried.
fn targets(run: &Run) {
    let (prio, qs) = ([0u32, 1, 5], [0.0f32, 0.5, 1.0]);
    let host = |k: usize| format!("sip:bob@t{k}.example.com");
    for n in 0..=if run.thorough() { 4 } else { 3 } {
        sequences(run, 9, n, |ix| {
            let of = |k: usize| (prio[ix[k] / 3], qs[ix[k] % 3]);
            for mode in [ForkMode::Parallel, ForkMode::Sequential, ForkMode::None] {
                let list = (0..n).map(|k| ProxyTarget::new(SipUri::parse(&host(k)).unwrap()).with_priority(of(k).0).with_q_value(of(k).1)).collect();
                let service = ProxyService::new();
                let got = rt().block_on(service.start_forking(invite(), list, "proxy.example.com", "UDP", false, None, mode)).map(|x| x.2.iter().map(|r| r.1.uri().as_str().to_string()).collect::<Vec<_>>());
                let mut want: Vec<usize> = (0..n).collect();
                if mode == ForkMode::Sequential {
                    want.sort_by(|a, b| of(*a).0.cmp(&of(*b).0).then(of(*b).1.total_cmp(&of(*a).1)));
                }
                if mode != ForkMode::Parallel {
                    want.truncate(1);
                }
                let want: Vec<String> = want.into_iter().map(host).collect();
                run.step(1);
                run.check(got.as_ref().is_ok_and(|g| *g == want), || format!("targets {mode:?} {:?}", (0..n).map(of).collect::<Vec<_>>()), || format!("{got:?}, want {want:?}"));
            }
            run.state(&("targets", ix));
        });
    }
    let qs = [0.0f32, 0.3, 0.5, 1.0, f32::NAN];
    for n in 0..=if run.thorough() { 7 } else { 5 } {
        sequences(run, qs.len(), n, |ix| {
            use sip_proxy::location::{group_by_q_value, Target};
            let list: Vec<Target> = ix.iter().enumerate().map(|(k, q)| Target::new(SipUri::parse(&host(k)).unwrap()).with_q_value(qs[*q])).collect();
            let q = |k: usize| if qs[ix[k]].is_nan() { 0.0 } else { qs[ix[k]] };
            let mut want: Vec<Vec<usize>> = vec![];
            for level in [1.0f32, 0.5, 0.3, 0.0] {
                let c: Vec<usize> = (0..n).filter(|k| q(*k) == level).collect();
                if !c.is_empty() {
                    want.push(c);
                }
            }
            let want: Vec<Vec<String>> = want.into_iter().map(|c| c.into_iter().map(host).collect()).collect();
            let got: Vec<Vec<String>> = group_by_q_value(list).iter().map(|c| c.iter().map(|t| t.uri.as_str().to_string()).collect()).collect();
            run.step(1);
            run.check(got == want, || format!("cohorts {:?}", ix.iter().map(|i| qs[*i]).collect::<Vec<_>>()), || format!("{got:?}, want {want:?}"));
        });
    }
}

pub fn p28(run: &Run) {
    targets(run);
    let deep = run.thorough();
    let go = |n: usize, codes: &[u16], pass: &[u64], err: bool, depth: usize| {
        let mut ops = vec![];
        for i in 0..n {
            ops.extend(codes.iter().map(|c| Op::Resp(i, *c)));
            if err {
                ops.push(Op::Error(i));
            }
        }
        ops.extend(pass.iter().map(|s| Op::Pass(*s)));
        if err {
            ops.push(Op::Resp(n, 200));
        }
        sequences(run, ops.len(), depth, |ix| history(run, n, &ix.iter().map(|i| ops[*i]).collect::<Vec<_>>()));
        run.note(&format!("histories_{n}_branches_{}_events", ops.len()), depth);
    };
    go(1, &[100, 180, 183, 200, 302, 401, 486, 603], &[100, 181], true, if deep { 6 } else { 5 });
    go(2, &[100, 180, 200, 401, 486, 603], &[181], true, if deep { 5 } else { 4 });
    go(2, &[180, 200, 404, 603], &[120], false, if deep { 7 } else { 5 });
    go(3, &[180, 200, 302, 401, 407, 503, 603], &[], true, if deep { 4 } else { 3 });
    go(3, &[200, 401, 407, 486, 503], &[], false, if deep { 5 } else { 4 });
    go(3, &[200, 486, 603], &[], false, if deep { 6 } else { 5 });
    if run.stopped() {
        return;
    }
    // responses handled in parallel
    let codes = [180u16, 200, 302, 486, 503, 603];
    let mut jobs: Vec<(usize, Vec<Vec<(usize, u16)>>)> = vec![];
    for a in codes {
        for b in codes {
            for n in 2..=3 {
                jobs.push((n, vec![vec![(0, a)], vec![(1, b)]]));
                jobs.push((n, vec![vec![(0, a)], vec![(0, b)]]));
                if deep || n == 2 {
                    jobs.push((n, vec![vec![(0, 180), (0, a)], vec![(1, b)]]));
                }
            }
            for c in codes {
                // the tasks are alike: one order of the codes stands for all
                if a <= b && b <= c && (deep || [a, b, c].iter().all(|x| [200, 486, 603].contains(x))) {
                    jobs.push((3, vec![vec![(0, a)], vec![(1, b)], vec![(2, c)]]));
                }
                if deep {
                    jobs.push((3, vec![vec![(0, a), (1, b)], vec![(2, c)]]));
                    jobs.push((2, vec![vec![(0, a), (1, b)], vec![(1, c)]]));
                }
            }
        }
    }
    // no branch answers both with a 2xx and with another final response
    jobs.retain(|(n, ts)| {
        (0..*n).all(|i| {
            let mut f = ts.iter().flatten().filter(|x| x.0 == i && x.1 >= 200).map(|x| x.1 < 300);
            let first = f.next();
            f.all(|ok| Some(ok) == first)
        })
    });
    common::par_for(run, jobs.len(), |j| parallel(run, jobs[j].0, &jobs[j].1));
    run.assume("Timer C is at its default of 180 s; responses of a branch are those of its INVITE");
    run.assume("Parallel tasks interleave at lock acquisitions: all state they share is behind those locks");
    run.assume("Which response of the best class is forwarded is left open");
}
