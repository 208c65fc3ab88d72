//! P26: the real TransactionManager under tokio's paused clock, for every
//! history of requests, responses, acknowledgements, answers, network failures
//! and passing time up to a depth, against the reference automata of fsm.rs run
//! by a reference scheduler. Resources are counted from outside: the live client
//! entries by the references they hold to the user, the server entries by the
//! stream senders in their contexts, the timers by the runtime's tasks.
use crate::fsm::{class, timer, Ev, Kind, Model, Out, St, RESP};
use async_trait::async_trait;
use bytes::Bytes;
use common::{sequences, vclock, Run};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_parse::{serialize_request, serialize_response};
use sip_transaction::timers::TimerDefaults;
use sip_transaction::*;
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::{sleep, timeout, Instant};

const MS: Duration = Duration::from_millis(1);

pub fn defaults() -> TimerDefaults {
    TimerDefaults { t1: MS * 500, t2: MS * 4000, t4: MS * 5000 }
}

/// (who, what, ms)
type Seen = (String, String, u64);

#[derive(Clone)]
struct Net {
    log: Arc<Mutex<Vec<Seen>>>,
    t0: Instant,
    /// peers that cannot be reached
    down: Arc<Mutex<Vec<u16>>>,
    /// time a send takes
    slow: Duration,
}

impl Net {
    fn new(slow: Duration) -> Net {
        Net { log: Default::default(), t0: Instant::now(), down: Default::default(), slow }
    }
    fn put(&self, who: String, what: String) {
        let t = (Instant::now() - self.t0).as_millis() as u64;
        self.log.lock().unwrap().push((who, what, t));
    }
}

fn line(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let first = s.lines().next().unwrap_or("").to_string();
    format!("{first} #{}", s.len())
}

#[async_trait]
impl TransportDispatcher for Net {
    async fn dispatch(&self, ctx: &TransportContext, payload: Bytes) -> anyhow::Result<()> {
        if !self.slow.is_zero() {
            sleep(self.slow).await;
        }
        let port = ctx.peer().port();
        let s = String::from_utf8_lossy(&payload).to_string();
        let branch = s.split("branch=").nth(1).and_then(|r| r.split([';', '\r']).next()).unwrap_or("").to_string();
        let method = s.lines().find_map(|l| l.strip_prefix("CSeq: 1 ")).unwrap_or("").to_string();
        let side = if s.starts_with("SIP/2.0") { "S" } else { "C" };
        let who = format!("{side} {branch} {method}");
        if self.down.lock().unwrap().contains(&port) {
            self.put(who, format!("failed {port}"));
            anyhow::bail!("peer is down");
        }
        self.put(who, format!("sent {port} {}", line(&payload)));
        Ok(())
    }
}

fn key_name(k: &TransactionKey) -> String {
    format!("{} {} {}", if k.is_server() { "S" } else { "C" }, k.branch(), k.method().as_str())
}

struct User(Net);
#[async_trait]
impl ClientTransactionUser for User {
    async fn on_provisional(&self, k: &TransactionKey, r: &Response) {
        self.0.put(key_name(k), format!("provisional {} {}", r.code(), r.reason()));
    }
    async fn on_final(&self, k: &TransactionKey, r: &Response) {
        self.0.put(key_name(k), format!("final {} {}", r.code(), r.reason()));
    }
    async fn on_terminated(&self, k: &TransactionKey, why: &str) {
        let c = if why.contains("limit") { "evicted" } else { class(why) };
        self.0.put(key_name(k), format!("terminated {c}"));
    }
    async fn send_ack(&self, k: &TransactionKey, r: Response, c: &TransportContext, is_2xx: bool) {
        self.0.put(key_name(k), format!("ack {} {is_2xx} {}", r.code(), c.peer().port()));
    }
    async fn send_prack(&self, k: &TransactionKey, r: Response, c: &TransportContext) {
        self.0.put(key_name(k), format!("prack {} {}", r.code(), c.peer().port()));
    }
    async fn on_transport_error(&self, k: &TransactionKey) {
        self.0.put(key_name(k), "unreachable".into());
    }
}

fn headers(branch: &str, m: &str) -> Headers {
    let mut h = Headers::new();
    if !branch.is_empty() {
        h.push("Via", &format!("SIP/2.0/UDP a.example;branch={branch}")).unwrap();
    }
    h.push("From", "<sip:a@a.example>;tag=1").unwrap();
    h.push("To", "<sip:b@b.example>").unwrap();
    h.push("Call-ID", "c1").unwrap();
    h.push("CSeq", &format!("1 {m}")).unwrap();
    h
}
fn req(branch: &str, m: &str) -> Request {
    let mut h = headers(branch, m);
    h.push("Max-Forwards", "70").unwrap();
    Request::new(RequestLine::new(Method::from_token(m).unwrap(), SipUri::parse("sip:b@b.example").unwrap()), h, Bytes::new()).unwrap()
}
fn resp(branch: &str, m: &str, i: usize) -> Response {
    let (c, r, rseq, require, sup) = RESP[i];
    let mut h = headers(branch, m);
    if rseq {
        h.push("RSeq", "7").unwrap();
    }
    if !require.is_empty() {
        h.push("Require", require).unwrap();
    }
    if !sup.is_empty() {
        h.push("Supported", sup).unwrap();
    }
    Response::new(StatusLine::new(c, r).unwrap(), h, Bytes::new()).unwrap()
}

fn addr(port: u16) -> SocketAddr {
    SocketAddr::from(([10, 0, 0, 1], port))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    /// a request arrives (branch, method)
    Req(&'static str, &'static str),
    /// the user of a server transaction answers (branch, method, response)
    Answer(&'static str, &'static str, usize),
    /// the ACK of an INVITE, by key
    AckKey(&'static str),
    /// the user starts a client transaction towards some targets
    Start(&'static str, &'static str, &'static [u16]),
    /// a response arrives
    Resp(&'static str, &'static str, usize),
    /// peer goes down or comes back
    Toggle(u16),
    Sleep(u64),
}

fn show(o: Op) -> String {
    match o {
        Op::Req(b, m) => format!("{m}({b})"),
        Op::Answer(b, m, i) => format!("answer {m}({b}) {}", RESP[i].0),
        Op::AckKey(b) => format!("ack({b})"),
        Op::Start(b, m, t) => format!("start {m}({b}){t:?}"),
        Op::Resp(b, m, i) => format!("response {m}({b}) {}", RESP[i].0),
        Op::Toggle(p) => format!("toggle {p}"),
        Op::Sleep(d) => format!("sleep {d}ms"),
    }
}

// ------------------------------------------------------------- reference

struct Txn {
    m: Model,
    branch: String,
    method: String,
    server: bool,
    peer: Vec<u16>,
    /// (timer, due) in ms
    due: BTreeMap<String, u64>,
    born: u64,
    order: usize,
    /// not yet reported
    fresh: bool,
}

struct Ref {
    txns: BTreeMap<String, Txn>,
    log: Vec<Seen>,
    now: u64,
    down: Vec<u16>,
    reliable: bool,
    limit: usize,
    count: usize,
}

impl Ref {
    fn name(server: bool, b: &str, m: &str) -> String {
        format!("{} {b} {m}", if server { "S" } else { "C" })
    }
    fn put(&mut self, who: &str, what: String) {
        self.log.push((who.into(), what, self.now));
    }
    /// One step of a transaction: its outputs become the log.
    fn apply(&mut self, key: &str, o: Out, error: bool) {
        let Some(t) = self.txns.get_mut(key) else { return };
        let server = t.server;
        let mut lost = false;
        for b in &o.sent {
            loop {
                let t = self.txns.get_mut(key).unwrap();
                let p = t.peer[0];
                if self.down.contains(&p) {
                    self.log.push((key.into(), format!("failed {p}"), self.now));
                    if !server && t.peer.len() > 1 {
                        t.peer.remove(0);
                        continue;
                    }
                    lost = true;
                } else {
                    self.log.push((key.into(), format!("sent {p} {}", line(b)), self.now));
                }
                break;
            }
        }
        let port = self.txns[key].peer[0];
        if error && !server {
            self.put(key, "unreachable".into());
        }
        for i in o.delivered {
            let k = if RESP[i].0 < 200 { "provisional" } else { "final" };
            self.put(key, format!("{k} {} {}", RESP[i].0, RESP[i].1));
        }
        for i in o.pracks {
            self.put(key, format!("prack {} {port}", RESP[i].0));
        }
        for (i, two) in o.acks {
            self.put(key, format!("ack {} {two} {port}", RESP[i].0));
        }
        if !server {
            for w in o.ended {
                self.put(key, format!("terminated {w}"));
            }
        }
        let now = self.now;
        let t = self.txns.get_mut(key).unwrap();
        t.due.retain(|k, _| t.m.live.contains_key(k));
        for (k, v) in o.armed {
            t.due.insert(k, now + v.as_millis() as u64);
        }
        if t.m.st == St::Terminated {
            self.txns.remove(key);
        } else if lost {
            let o = self.txns.get_mut(key).unwrap().m.step(Ev::Error);
            self.apply(key, o, true);
        }
    }
    fn step(&mut self, key: &str, ev: Ev) {
        let Some(t) = self.txns.get_mut(key) else { return };
        let o = t.m.step(ev);
        self.apply(key, o, false);
    }
    fn until(&mut self, t: u64) {
        loop {
            let next = self.txns.iter().flat_map(|(k, x)| x.due.iter().map(move |(n, d)| (*d, x.order, k.clone(), n.clone()))).min();
            match next {
                Some((d, _, k, n)) if d <= t => {
                    self.now = self.now.max(d);
                    self.txns.get_mut(&k).unwrap().due.remove(&n);
                    self.step(&k, Ev::Fire(timer(&n)));
                }
                _ => break,
            }
        }
        self.now = t;
    }
    fn evict(&mut self, server: bool) {
        let n = self.txns.values().filter(|t| t.server == server).count();
        if n >= self.limit {
            let k = self.txns.iter().filter(|(_, t)| t.server == server).min_by_key(|(_, t)| (t.born, t.order)).map(|(k, _)| k.clone()).unwrap();
            self.txns.remove(&k);
            if !server {
                self.put(&k, "terminated evicted".into());
            }
        }
    }
    fn create(&mut self, server: bool, b: &str, m: &str, peer: Vec<u16>) -> String {
        let key = Self::name(server, b, m);
        let kind = match (server, m) {
            (true, "INVITE") => Kind::ServerInvite,
            (true, _) => Kind::ServerOther,
            (false, "INVITE") => Kind::ClientInvite,
            _ => Kind::ClientOther,
        };
        let wire = serialize_request(&req(b, m));
        let rw = (0..RESP.len()).map(|i| serialize_response(&resp(b, m, i))).collect();
        self.evict(server);
        self.count += 1;
        let t = Txn {
            m: Model::new(kind, self.reliable, defaults(), wire, rw),
            branch: b.into(),
            method: m.into(),
            server,
            peer,
            due: BTreeMap::new(),
            born: self.now,
            order: self.count,
            fresh: true,
        };
        self.txns.insert(key.clone(), t);
        let o = self.txns.get_mut(&key).unwrap().m.start();
        self.apply(&key, o, false);
        key
    }
    /// false: the operation makes no sense here
    fn op(&mut self, o: Op) -> bool {
        match o {
            Op::Req(b, m) => {
                let key = Self::name(true, b, m);
                if m == "ACK" {
                    self.step(&Self::name(true, b, "INVITE"), Ev::Ack);
                } else if self.txns.contains_key(&key) {
                    self.step(&key, Ev::Again);
                } else {
                    self.create(true, b, m, vec![5060]);
                }
            }
            Op::Answer(b, m, i) => self.step(&Self::name(true, b, m), Ev::Resp(i)),
            Op::AckKey(b) => self.step(&Self::name(true, b, "INVITE"), Ev::Ack),
            Op::Start(b, m, t) => {
                if self.txns.contains_key(&Self::name(false, b, m)) {
                    return false;
                }
                self.create(false, b, m, t.to_vec());
            }
            Op::Resp(b, m, i) => self.step(&Self::name(false, b, m), Ev::Resp(i)),
            Op::Toggle(p) => {
                if self.down.contains(&p) {
                    self.down.retain(|x| *x != p)
                } else {
                    self.down.push(p)
                }
            }
            Op::Sleep(d) => {
                let t = self.now + d;
                self.until(t);
            }
        }
        true
    }
}

// ------------------------------------------------------------------- run

struct Live {
    mgr: TransactionManager,
    net: Net,
    user: Arc<User>,
    tu: Arc<dyn ClientTransactionUser>,
    stream: tokio::sync::mpsc::Sender<Bytes>,
    _rx: tokio::sync::mpsc::Receiver<Bytes>,
    kind: TransportKind,
}

impl Live {
    fn new(kind: TransportKind, limit: usize, slow: Duration) -> Live {
        let net = Net::new(slow);
        let d = defaults();
        let mgr = TransactionManager::with_timers_and_limits(Arc::new(net.clone()), d.t1, d.t2, d.t4, TransactionLimits::new(limit, limit));
        let user = Arc::new(User(net.clone()));
        let (stream, _rx) = tokio::sync::mpsc::channel(1);
        Live { mgr, net, tu: user.clone(), user, stream, _rx, kind }
    }
    fn ctx(&self, port: u16, stream: bool) -> TransportContext {
        // a TCP context needs its connection; UDP server contexts carry one to be counted
        let s = (stream || self.kind == TransportKind::Tcp).then(|| self.stream.clone());
        TransportContext::new(self.kind, addr(port), s)
    }
    fn clients(&self) -> usize {
        Arc::strong_count(&self.user) - 2
    }
    fn tasks(&self) -> usize {
        tokio::runtime::Handle::current().metrics().num_alive_tasks()
    }
    /// What the call itself reported, if it reports anything.
    async fn op(&self, o: Op) -> Result<Option<String>, String> {
        let big = Duration::from_secs(100_000);
        let f = async {
            match o {
                Op::Req(b, m) => {
                    let h = self.mgr.receive_request(req(b, m), self.ctx(5060, true)).await;
                    Some(key_name(h.key()))
                }
                Op::Answer(b, m, i) => {
                    let k = TransactionKey::new(b, Method::from_token(m).unwrap(), true);
                    if RESP[i].0 < 200 {
                        self.mgr.send_provisional(&k, resp(b, m, i)).await
                    } else {
                        self.mgr.send_final(&k, resp(b, m, i)).await
                    }
                    None
                }
                Op::AckKey(b) => Some(self.mgr.ack_received(&TransactionKey::new(b, Method::Invite, true)).await.to_string()),
                Op::Start(b, m, t) => match self.mgr.start_client_transaction_with_targets(req(b, m), t.iter().map(|p| self.ctx(*p, false)).collect(), self.tu.clone()).await {
                    Ok(k) => Some(key_name(&k)),
                    Err(e) => Some(format!("refused: {e}")),
                },
                Op::Resp(b, m, i) => {
                    self.mgr.receive_response(resp(b, m, i)).await;
                    None
                }
                Op::Toggle(p) => {
                    let mut d = self.net.down.lock().unwrap();
                    if d.contains(&p) {
                        d.retain(|x| *x != p)
                    } else {
                        d.push(p)
                    }
                    None
                }
                Op::Sleep(d) => {
                    sleep(Duration::from_millis(d)).await;
                    None
                }
            }
        };
        timeout(big, f).await.map_err(|_| "the call never returned".into())
    }
}

pub fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap()
}

/// Times may drift by the granularity of the runtime's timer.
fn same(a: &[Seen], b: &[Seen]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1 && x.2.abs_diff(y.2) <= 40)
}

fn history(run: &Run, tag: &str, kind: TransportKind, limit: usize, ops: &[Op]) {
    vclock::reset();
    rt().block_on(async {
        let l = Live::new(kind, limit, Duration::ZERO);
        let mut r = Ref { txns: BTreeMap::new(), log: vec![], now: 0, down: vec![], reliable: kind != TransportKind::Udp, limit, count: 0 };
        let name = |n: usize| format!("{tag} {kind:?} limit {limit}: {}", ops[..n].iter().map(|o| show(*o)).collect::<Vec<_>>().join(", "));
        let drain = [Op::Sleep(40_000), Op::Sleep(40_000)];
        for (n, o) in ops.iter().chain(&drain).enumerate() {
            let shown = n.min(ops.len() - 1) + 1;
            if n == ops.len() {
                // the end: the network is fine again
                r.down.clear();
                l.net.down.lock().unwrap().clear();
            }
            vclock::advance_ms(1);
            let absorbs = |r: &Ref, b: &str| r.txns.contains_key(&Ref::name(true, b, "INVITE"));
            let want = match *o {
                Op::Req(b, "ACK") => Some(Ref::name(true, b, if absorbs(&r, b) { "INVITE" } else { "ACK" })),
                Op::Req(b, m) => Some(Ref::name(true, b, m)),
                Op::AckKey(b) => Some(absorbs(&r, b).to_string()),
                Op::Start(b, m, _) => Some(Ref::name(false, b, m)),
                _ => None,
            };
            if !r.op(*o) {
                return;
            }
            match l.op(*o).await {
                Ok(g) => {
                    if g != want {
                        run.violation(format!("result: {}", name(shown)), format!("{} reports {g:?}, expected {want:?}", show(*o)));
                        return;
                    }
                }
                Err(e) => {
                    run.violation(format!("stuck: {}", name(shown)), format!("{}: {e}", show(*o)));
                    return;
                }
            }
            sleep(MS * 2).await;
            let t = r.now + 2;
            r.until(t);
            run.step(1);
            let mut got = std::mem::take(&mut *l.net.log.lock().unwrap());
            let mut exp = std::mem::take(&mut r.log);
            // events of different transactions at one instant are not ordered
            got.sort_by(|a, b| a.0.cmp(&b.0));
            exp.sort_by(|a, b| a.0.cmp(&b.0));
            if !same(&got, &exp) {
                run.violation(format!("events: {}", name(shown)), format!("after {} saw {got:?}, expected {exp:?}", show(*o)));
                return;
            }
            let (cl, sv) = (r.txns.values().filter(|t| !t.server).count(), r.txns.values().filter(|t| t.server).count());
            if l.clients() != cl {
                run.violation(format!("clients: {}", name(shown)), format!("after {} {} client transactions are kept, expected {cl}", show(*o), l.clients()));
                return;
            }
            let gs = l.stream.strong_count() - 1 - if kind == TransportKind::Tcp { r.txns.values().filter(|t| !t.server).map(|t| t.peer.len()).sum() } else { 0 };
            if gs != sv {
                run.violation(format!("servers: {}", name(shown)), format!("after {} {gs} server transactions are kept, expected {sv}", show(*o)));
                return;
            }
            if cl > limit || sv > limit {
                run.violation(format!("limit: {}", name(shown)), format!("{cl} client and {sv} server transactions"));
            }
            let tasks = l.tasks();
            if tasks > 1 + 3 * (cl + sv) {
                run.violation(format!("tasks: {}", name(shown)), format!("after {} {tasks} tasks run for {} transactions", show(*o), cl + sv));
                return;
            }
        }
        run.state(&(tag, format!("{kind:?}"), limit, r.count, r.txns.iter().map(|(k, t)| (k.clone(), t.m.st, t.m.fin, t.m.last, t.peer.clone())).collect::<Vec<_>>()));
        for t in r.txns.values() {
            // what is left waits for its user, by the state machine
            let ok = t.m.st == St::Proceeding;
            run.check(ok, || format!("left: {}", name(ops.len())), || format!("{} {} ({}) is still there", t.branch, t.method, t.fresh));
        }
        run.trace();
    });
    vclock::real();
}

/// Bursts: n transactions at one instant, all of whose sends fail later.
fn burst(run: &Run, n: usize, server: bool, kind: TransportKind) {
    vclock::reset();
    rt().block_on(async {
        let l = Live::new(kind, usize::MAX, Duration::ZERO);
        let name = || format!("burst of {n} {} {kind:?}", if server { "server" } else { "client" });
        let work = async {
            for i in 0..n {
                let b = format!("z9hG4bKn{i}");
                if server {
                    let h = l.mgr.receive_request(req(&b, "INVITE"), l.ctx(5060, true)).await;
                    h.send_final(resp(&b, "INVITE", 5)).await;
                } else {
                    let _ = l.mgr.start_client_transaction(req(&b, "OPTIONS"), l.ctx(5060, false), l.tu.clone()).await;
                }
            }
            l.net.down.lock().unwrap().push(5060);
            sleep(MS * 600).await;
        };
        if timeout(Duration::from_secs(100_000), work).await.is_err() {
            run.violation(format!("stuck: {}", name()), "a call never returned");
            return;
        }
        run.step(n as u64);
        run.state(&("burst", n, server));
        let left = if server { l.stream.strong_count() - 1 } else { l.clients() };
        run.check(left == 0, || name(), || format!("{left} of {n} transactions survive a failed retransmission"));
        let lost = l.net.log.lock().unwrap().iter().filter(|e| e.1 == "unreachable").count();
        run.check(server || lost == n, || format!("report: {}", name()), || format!("{lost} of {n} users were told that the peer is unreachable"));
        // and the manager still works
        l.net.down.lock().unwrap().clear();
        let ok = timeout(Duration::from_secs(1000), async {
            let _ = l.mgr.start_client_transaction(req("z9hG4bKlast", "OPTIONS"), l.ctx(5060, false), l.tu.clone()).await;
            sleep(Duration::from_secs(40)).await;
        })
        .await
        .is_ok();
        let ended = l.net.log.lock().unwrap().iter().any(|e| e.0 == "C z9hG4bKlast OPTIONS" && e.1 == "terminated timeout");
        run.check(ok && ended, || format!("after: {}", name()), || "the manager no longer runs timers".into());
        run.trace();
    });
    vclock::real();
}

/// Sends take 20 ms and calls overlap: what must hold whatever the order.
fn overlapping(run: &Run, tag: &str, limit: usize, ops: &[Op]) {
    let mut started: Vec<Op> = vec![];
    for o in ops {
        // a key is used once
        if matches!(o, Op::Start(..)) && started.contains(o) {
            return;
        }
        started.push(*o);
    }
    vclock::reset();
    rt().block_on(async {
        let l = Arc::new(Live::new(TransportKind::Udp, limit, MS * 20));
        let name = || format!("{tag} slow sends limit {limit}: {}", ops.iter().map(|o| show(*o)).collect::<Vec<_>>().join(", "));
        for o in ops {
            vclock::advance_ms(1);
            match *o {
                Op::Sleep(d) => sleep(Duration::from_millis(d)).await,
                o => {
                    let l = l.clone();
                    tokio::spawn(async move {
                        let _ = l.op(o).await;
                    });
                    tokio::task::yield_now().await;
                }
            }
            run.step(1);
        }
        sleep(Duration::from_secs(100)).await;
        let log = l.net.log.lock().unwrap().clone();
        let count = |who: &str, f: &dyn Fn(&str) -> bool| log.iter().filter(|e| e.0 == who && f(&e.1)).count();
        let mut open = 0;
        for o in ops {
            if let Op::Start(b, m, _) = *o {
                let k = Ref::name(false, b, m);
                let ended = count(&k, &|w| w.starts_with("terminated"));
                let finals = count(&k, &|w| w.starts_with("final"));
                let non2xx = count(&k, &|w| w.starts_with("final") && !w.starts_with("final 2"));
                let acks = count(&k, &|w| w.starts_with("ack"));
                let prov = count(&k, &|w| w.starts_with("provisional"));
                run.check(ended <= 1 && non2xx <= 1 && finals <= non2xx + 1, || format!("twice: {}", name()), || format!("{k} passed {finals} final responses and reported {ended} ends: {log:?}"));
                run.check(m != "INVITE" || acks >= finals && (m == "INVITE" || acks == 0), || format!("acks: {}", name()), || format!("{k} passed {finals} finals ({non2xx} not 2xx) and acknowledged {acks}"));
                if ended + finals == 0 {
                    open += 1;
                    run.check(m == "INVITE" && prov > 0, || format!("silent: {}", name()), || format!("{k} has neither a final response nor an end: {log:?}"));
                }
            }
        }
        run.check(l.clients() == open, || format!("clients: {}", name()), || format!("{} client transactions are kept, expected {open}", l.clients()));
        // a server transaction that was answered is over
        let mut keys: Vec<(&str, &str)> = vec![];
        for o in ops {
            if let Op::Req(b, m) = *o {
                if m != "ACK" && !keys.contains(&(b, m)) {
                    keys.push((b, m));
                }
            }
        }
        let waiting = l.stream.strong_count() - 1;
        // a request after the final answer may open a new transaction
        let again = |k: &(&str, &str)| {
            let f = ops.iter().position(|o| matches!(*o, Op::Answer(b, m, i) if (b, m) == *k && RESP[i].0 >= 200)).unwrap_or(ops.len());
            ops[f..].iter().any(|o| matches!(*o, Op::Req(b, m) if (b, m) == *k))
        };
        let answered = keys.iter().filter(|k| !again(k) && count(&Ref::name(true, k.0, k.1), &|w| w.starts_with("sent") && RESP.iter().any(|r| r.0 >= 200 && w.contains(&format!("SIP/2.0 {} ", r.0)))) > 0).count();
        run.check(waiting <= (keys.len() - answered).min(limit), || format!("servers: {}", name()), || format!("{waiting} server transactions are kept of {}, {answered} were answered", keys.len()));
        let tasks = l.tasks();
        run.check(tasks <= 1 + 2 * (open + waiting), || format!("tasks: {}", name()), || format!("{tasks} tasks run for {open} client and {waiting} server transactions"));
        run.state(&("slow", tag, limit, log.iter().map(|e| (&e.0, &e.1)).collect::<Vec<_>>()));
        run.trace();
    });
    vclock::real();
}

/// The ACK of a 2xx can be lost: the peer repeats the 2xx until it sees one, and
/// a forked INVITE draws several (RFC 3261 13.2.2.4).
fn repeated_2xx(run: &Run) {
    for i in [3usize, 4] {
        vclock::reset();
        rt().block_on(async {
            let l = Live::new(TransportKind::Udp, 100, Duration::ZERO);
            for o in [Op::Start(B1, "INVITE", &[5061]), Op::Resp(B1, "INVITE", 3), Op::Sleep(500), Op::Resp(B1, "INVITE", i)] {
                let _ = l.op(o).await;
                sleep(MS * 2).await;
                run.step(1);
            }
            let n = l.net.log.lock().unwrap().iter().filter(|e| e.1.starts_with("ack 2")).count();
            run.check(n == 2, || format!("2xx again: {}", if i == 3 { "the same" } else { "another" }), || format!("{n} ACKs for two 2xx responses to one INVITE"));
            run.trace();
        });
        vclock::real();
    }
}

const B1: &str = "z9hG4bK1";
const B2: &str = "z9hG4bK2";
const B3: &str = "z9hG4bK3";
const T1: u64 = 500;
const LONG: u64 = 32_100;

pub fn p26(run: &Run) {
    let server = [
        Op::Req(B1, "INVITE"),
        Op::Req(B1, "OPTIONS"),
        Op::Req(B1, "CANCEL"),
        Op::Req(B1, "ACK"),
        Op::Req(B2, "INVITE"),
        Op::AckKey(B1),
        Op::Answer(B1, "INVITE", 1),
        Op::Answer(B1, "INVITE", 5),
        Op::Answer(B1, "INVITE", 3),
        Op::Answer(B1, "OPTIONS", 3),
        Op::Answer(B1, "CANCEL", 3),
        Op::Toggle(5060),
        Op::Sleep(T1 + 100),
        Op::Sleep(LONG),
    ];
    const P12: &[u16] = &[5061, 5062];
    const P1: &[u16] = &[5061];
    const P213: &[u16] = &[5062, 5061, 5063];
    let client = [
        Op::Start(B1, "INVITE", P12),
        Op::Start(B1, "CANCEL", P1),
        Op::Start(B2, "OPTIONS", P213),
        Op::Resp(B1, "INVITE", 1),
        Op::Resp(B1, "INVITE", 2),
        Op::Resp(B1, "INVITE", 5),
        Op::Resp(B1, "INVITE", 3),
        Op::Resp(B1, "CANCEL", 3),
        Op::Resp(B2, "OPTIONS", 0),
        Op::Resp(B2, "OPTIONS", 5),
        Op::Resp(B2, "INVITE", 3),
        Op::Toggle(5061),
        Op::Toggle(5062),
        Op::Sleep(T1 + 100),
        Op::Sleep(LONG),
    ];
    let limits_s = [Op::Req(B1, "INVITE"), Op::Req(B2, "INVITE"), Op::Req(B3, "OPTIONS"), Op::Answer(B1, "INVITE", 5), Op::Answer(B2, "INVITE", 3), Op::Answer(B3, "OPTIONS", 3), Op::Req(B1, "ACK"), Op::Sleep(LONG)];
    let limits_c = [Op::Start(B1, "INVITE", P1), Op::Start(B2, "OPTIONS", P12), Op::Start(B3, "INVITE", P1), Op::Resp(B1, "INVITE", 5), Op::Resp(B2, "OPTIONS", 3), Op::Resp(B3, "INVITE", 3), Op::Toggle(5061), Op::Sleep(LONG)];
    let depth = run.pick(4, 5);
    for n in 1..=depth {
        for k in [TransportKind::Udp, TransportKind::Tcp] {
            sequences(run, server.len(), n, |s| history(run, "server", k, usize::MAX, &s.iter().map(|&i| server[i]).collect::<Vec<_>>()));
            sequences(run, client.len(), n, |s| history(run, "client", k, usize::MAX, &s.iter().map(|&i| client[i]).collect::<Vec<_>>()));
        }
    }
    for n in 1..=depth + 1 {
        for limit in [1, 2] {
            sequences(run, limits_s.len(), n, |s| history(run, "server", TransportKind::Udp, limit, &s.iter().map(|&i| limits_s[i]).collect::<Vec<_>>()));
            sequences(run, limits_c.len(), n, |s| history(run, "client", TransportKind::Udp, limit, &s.iter().map(|&i| limits_c[i]).collect::<Vec<_>>()));
        }
    }
    let slow_s = [Op::Req(B1, "INVITE"), Op::Req(B1, "ACK"), Op::Req(B2, "OPTIONS"), Op::Answer(B1, "INVITE", 1), Op::Answer(B1, "INVITE", 5), Op::Answer(B1, "INVITE", 3), Op::Answer(B2, "OPTIONS", 3), Op::Toggle(5060), Op::Sleep(10), Op::Sleep(30)];
    let slow_c = [Op::Start(B1, "INVITE", P12), Op::Start(B2, "OPTIONS", P12), Op::Resp(B1, "INVITE", 1), Op::Resp(B1, "INVITE", 5), Op::Resp(B1, "INVITE", 3), Op::Resp(B2, "OPTIONS", 0), Op::Resp(B2, "OPTIONS", 3), Op::Toggle(5061), Op::Toggle(5062), Op::Sleep(10), Op::Sleep(30)];
    for n in 1..=depth {
        for limit in [1, 100] {
            sequences(run, slow_s.len(), n, |s| overlapping(run, "server", limit, &s.iter().map(|&i| slow_s[i]).collect::<Vec<_>>()));
            sequences(run, slow_c.len(), n, |s| overlapping(run, "client", limit, &s.iter().map(|&i| slow_c[i]).collect::<Vec<_>>()));
        }
    }
    repeated_2xx(run);
    let sizes: Vec<usize> = if run.thorough() { (1..=300).collect() } else { vec![1, 2, 64, 126, 127, 128, 129, 130, 131, 200, 257, 300] };
    common::par_for(run, sizes.len(), |i| {
        burst(run, sizes[i], false, TransportKind::Udp);
        burst(run, sizes[i], true, TransportKind::Udp);
    });
    run.note("oracle", "the reference automata of P24 and P25 run by a reference scheduler in virtual time");
    run.assume("targets of one transaction share the transport they were started on");
    run.assume("a branch and method are not reused while their transaction is alive");
}
