//! P24, P25: the four transaction state machines against a reference automaton
//! written from the module documentation and RFC 3261 section 17, for every
//! event sequence up to a depth. Timers may also fire late: a timer that was
//! cancelled or superseded can still be delivered once per time it was armed.
use bytes::Bytes;
use common::{sequences, Run};
use sip_core::{Headers, Method, Request, RequestLine, Response, SipUri, StatusLine};
use sip_parse::{serialize_request, serialize_response};
use sip_transaction::timers::{TimerDefaults, Transport, TransportAwareTimers};
use sip_transaction::TransactionTimer as T;
use sip_transaction::*;
use std::collections::BTreeMap;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    ClientInvite,
    ClientOther,
    ServerInvite,
    ServerOther,
}
use Kind::*;

/// What a user or the network does to a transaction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev {
    /// response received (client) or sent by the user (server)
    Resp(usize),
    /// the request again (server)
    Again,
    Ack,
    Cancel,
    Fire(T),
    Error,
}

#[derive(Default, PartialEq, Eq, Clone, Debug)]
pub struct Out {
    pub sent: Vec<Bytes>,
    pub delivered: Vec<usize>,
    pub acks: Vec<(usize, bool)>,
    pub pracks: Vec<usize>,
    pub ended: Vec<String>,
    pub armed: BTreeMap<String, Duration>,
}

pub fn request(m: Method) -> Request {
    let mut h = Headers::new();
    h.push("Via", "SIP/2.0/UDP a.example;branch=z9hG4bK1").unwrap();
    h.push("From", "<sip:a@a.example>;tag=1").unwrap();
    h.push("To", "<sip:b@b.example>").unwrap();
    h.push("Call-ID", "c1").unwrap();
    h.push("CSeq", &format!("1 {}", m.as_str())).unwrap();
    h.push("Max-Forwards", "70").unwrap();
    Request::new(RequestLine::new(m, SipUri::parse("sip:b@b.example").unwrap()), h, Bytes::new()).unwrap()
}

/// (code, reason, RSeq, Require, Supported)
pub const RESP: [(u16, &str, bool, &str, &str); 12] = [
    (100, "Trying", false, "", ""),
    (180, "Ringing", false, "", ""),
    (183, "Progress", true, "100rel", ""),
    (200, "OK", false, "", ""),
    (299, "Second", false, "", ""),
    (486, "Busy", false, "", ""),
    (603, "Decline", false, "", ""),
    (300, "Choices", false, "", ""),
    (183, "Timer", true, "timer", ""),
    (183, "Listed", true, "timer, 100REL", ""),
    (183, "Supports", true, "timer", "100rel"),
    (199, "Bare", true, "", ""),
];

pub fn response(i: usize) -> Response {
    let (c, r, rseq, req, sup) = RESP[i];
    let mut h = Headers::new();
    h.push("Via", "SIP/2.0/UDP a.example;branch=z9hG4bK1").unwrap();
    h.push("CSeq", "1 INVITE").unwrap();
    if rseq {
        h.push("RSeq", "7").unwrap();
    }
    if !req.is_empty() {
        h.push("Require", req).unwrap();
    }
    if !sup.is_empty() {
        h.push("Supported", sup).unwrap();
    }
    Response::new(StatusLine::new(c, r).unwrap(), h, Bytes::new()).unwrap()
}

fn wants_prack(i: usize) -> bool {
    // a reliable provisional names 100rel; the documentation of the module also
    // takes an RSeq without any Require, or with Supported: 100rel
    matches!(i, 2 | 9 | 10 | 11)
}

fn which(r: &Response) -> usize {
    RESP.iter().position(|x| x.0 == r.code() && x.1 == r.reason()).unwrap_or(99)
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    Calling, // Calling / Trying
    Proceeding,
    Completed,
    Confirmed,
    Terminated,
}

pub struct Model {
    pub kind: Kind,
    pub reliable: bool,
    pub d: TimerDefaults,
    pub st: St,
    pub interval: Duration,
    pub req: Bytes,
    pub resp: Vec<Bytes>,
    pub last: Option<usize>,
    pub fin: Option<usize>,
    /// timers that must be running now
    pub live: BTreeMap<String, Duration>,
}

impl Model {
    pub fn new(kind: Kind, reliable: bool, d: TimerDefaults, req: Bytes, resp: Vec<Bytes>) -> Model {
        let st = if matches!(kind, ServerInvite | ServerOther) { St::Proceeding } else { St::Calling };
        Model { kind, reliable, d, st, interval: d.t1, req, resp, last: None, fin: None, live: BTreeMap::new() }
    }
    fn arm(&mut self, o: &mut Out, t: T, v: Duration) {
        o.armed.insert(format!("{t:?}"), v);
        self.live.insert(format!("{t:?}"), v);
    }
    fn wait(&self, v: Duration) -> Duration {
        if self.reliable {
            Duration::ZERO
        } else {
            v
        }
    }
    pub fn start(&mut self) -> Out {
        let mut o = Out::default();
        if matches!(self.kind, ClientInvite | ClientOther) {
            let (re, out) = if self.kind == ClientInvite { (T::A, T::B) } else { (T::E, T::F) };
            o.sent.push(self.req.clone());
            if !self.reliable {
                self.arm(&mut o, re, self.d.t1);
            }
            self.arm(&mut o, out, self.d.t1 * 64);
        }
        o
    }
    fn end(&mut self, o: &mut Out, why: &str) {
        self.st = St::Terminated;
        self.live.clear();
        if !why.is_empty() {
            o.ended.push(why.into());
        }
    }
    pub fn step(&mut self, ev: Ev) -> Out {
        let mut o = Out::default();
        if let Ev::Fire(t) = ev {
            self.live.remove(&format!("{t:?}"));
        }
        let code = |i: usize| RESP[i].0;
        match (self.kind, self.st, ev) {
            (_, St::Terminated, Ev::Error) => {}
            (_, _, Ev::Error) => self.end(&mut o, "transport error"),
            // ---- client INVITE
            (ClientInvite, St::Calling | St::Proceeding, Ev::Resp(i)) if code(i) < 200 => {
                self.st = St::Proceeding;
                self.live.clear(); // neither retransmission nor timeout while the peer is at work
                o.delivered.push(i);
                if wants_prack(i) {
                    o.pracks.push(i);
                }
            }
            (ClientInvite, _, Ev::Resp(i)) if (200..300).contains(&code(i)) => {
                self.end(&mut o, "");
                o.delivered.push(i);
                o.acks.push((i, true));
            }
            (ClientInvite, St::Calling | St::Proceeding, Ev::Resp(i)) => {
                self.st = St::Completed;
                self.live.clear();
                o.delivered.push(i);
                o.acks.push((i, false));
                let w = self.wait(Duration::from_secs(32));
                self.arm(&mut o, T::D, w);
            }
            (ClientInvite, St::Completed, Ev::Resp(i)) if code(i) >= 300 => o.acks.push((i, false)),
            (ClientInvite, St::Calling, Ev::Fire(T::A)) => {
                o.sent.push(self.req.clone());
                self.interval = (self.interval * 2).min(self.d.t2);
                let v = self.interval;
                self.arm(&mut o, T::A, v);
            }
            (ClientInvite, St::Calling, Ev::Fire(T::B)) => self.end(&mut o, "timeout"),
            (ClientInvite, St::Completed, Ev::Fire(T::D)) => self.end(&mut o, ""),
            // ---- client, other methods
            (ClientOther, St::Calling | St::Proceeding, Ev::Resp(i)) if code(i) < 200 => {
                self.st = St::Proceeding;
                o.delivered.push(i);
            }
            (ClientOther, St::Calling | St::Proceeding, Ev::Resp(i)) => {
                self.st = St::Completed;
                self.live.clear();
                o.delivered.push(i);
                let w = self.wait(self.d.t4);
                self.arm(&mut o, T::K, w);
            }
            (ClientOther, St::Calling | St::Proceeding, Ev::Fire(T::E)) => {
                o.sent.push(self.req.clone());
                self.interval = (self.interval * 2).min(self.d.t2);
                let v = self.interval;
                self.arm(&mut o, T::E, v);
            }
            (ClientOther, St::Calling | St::Proceeding, Ev::Fire(T::F)) => self.end(&mut o, "timeout"),
            (ClientOther, St::Completed, Ev::Fire(T::K)) => self.end(&mut o, ""),
            // ---- server: the request again
            (ServerInvite | ServerOther, St::Proceeding, Ev::Again) => {
                o.sent.extend(self.last.map(|i| self.resp[i].clone()));
            }
            (ServerInvite | ServerOther, St::Completed, Ev::Again) => {
                o.sent.extend(self.fin.map(|i| self.resp[i].clone()));
            }
            (ServerInvite | ServerOther, St::Proceeding, Ev::Resp(i)) if code(i) < 200 => {
                self.last = Some(i);
                o.sent.push(self.resp[i].clone());
            }
            // ---- server INVITE
            (ServerInvite, St::Proceeding, Ev::Resp(i)) => {
                self.fin = Some(i);
                o.sent.push(self.resp[i].clone());
                if code(i) < 300 {
                    self.end(&mut o, "done");
                } else {
                    self.st = St::Completed;
                    self.interval = self.d.t1;
                    if !self.reliable {
                        let v = self.d.t1;
                        self.arm(&mut o, T::G, v);
                    }
                    let v = self.d.t1 * 64;
                    self.arm(&mut o, T::H, v);
                }
            }
            (ServerInvite, St::Completed, Ev::Fire(T::G)) => {
                o.sent.extend(self.fin.map(|i| self.resp[i].clone()));
                self.interval = (self.interval * 2).min(self.d.t2);
                let v = self.interval;
                self.arm(&mut o, T::G, v);
            }
            (ServerInvite, St::Completed, Ev::Fire(T::H)) => self.end(&mut o, "timeout"),
            (ServerInvite, St::Completed, Ev::Ack) => {
                self.st = St::Confirmed;
                self.live.clear();
                let w = self.wait(self.d.t4);
                self.arm(&mut o, T::I, w);
            }
            (ServerInvite, St::Confirmed, Ev::Fire(T::I)) => self.end(&mut o, "done"),
            // ---- server, other methods
            (ServerOther, St::Proceeding, Ev::Resp(i)) => {
                self.st = St::Completed;
                self.fin = Some(i);
                o.sent.push(self.resp[i].clone());
                let w = self.wait(self.d.t1 * 64);
                self.arm(&mut o, T::J, w);
            }
            (ServerOther, St::Completed, Ev::Fire(T::J)) => self.end(&mut o, "done"),
            _ => {}
        }
        o
    }
}

// ----------------------------------------------------------- implementation

enum Impl {
    CI(ClientInviteFsm),
    CO(ClientNonInviteFsm),
    SI(ServerInviteFsm),
    SO(ServerNonInviteFsm),
}

struct Sys {
    imp: Impl,
    /// timers running now, and how many late deliveries are possible
    running: BTreeMap<String, Duration>,
    tokens: BTreeMap<String, usize>,
}

impl Sys {
    fn new(k: Kind, t: Transport, d: TimerDefaults) -> Sys {
        let m = TransportAwareTimers::with_defaults(t, d);
        let imp = match k {
            ClientInvite => Impl::CI(ClientInviteFsm::new(m)),
            ClientOther => Impl::CO(ClientNonInviteFsm::new(m)),
            ServerInvite => Impl::SI(ServerInviteFsm::new(m)),
            ServerOther => Impl::SO(ServerNonInviteFsm::new(m)),
        };
        Sys { imp, running: BTreeMap::new(), tokens: BTreeMap::new() }
    }
    fn terminated(&self) -> bool {
        match &self.imp {
            Impl::CI(f) => f.state() == ClientInviteState::Terminated,
            Impl::CO(f) => f.state() == ClientNonInviteState::Terminated,
            Impl::SI(f) => f.state() == ServerInviteState::Terminated,
            Impl::SO(f) => f.state() == ServerNonInviteState::Terminated,
        }
    }
    fn state(&self) -> String {
        match &self.imp {
            Impl::CI(f) => format!("{:?}", f.state()),
            Impl::CO(f) => format!("{:?}", f.state()),
            Impl::SI(f) => format!("{:?}", f.state()),
            Impl::SO(f) => format!("{:?}", f.state()),
        }
    }
    fn sched(&mut self, o: &mut Out, t: T, d: Duration) {
        let k = format!("{t:?}");
        o.armed.insert(k.clone(), d);
        self.running.insert(k.clone(), d);
        *self.tokens.entry(k).or_default() += 1;
    }
    fn client_invite(&mut self, a: Vec<ClientInviteAction>) -> Out {
        let mut o = Out::default();
        for x in a {
            match x {
                ClientInviteAction::Transmit { bytes, .. } => o.sent.push(bytes),
                ClientInviteAction::Deliver(r) => o.delivered.push(which(&r)),
                ClientInviteAction::ExpectPrack(r) => o.pracks.push(which(&r)),
                ClientInviteAction::GenerateAck { response, is_2xx } => o.acks.push((which(&response), is_2xx)),
                ClientInviteAction::Schedule { timer, duration } => self.sched(&mut o, timer, duration),
                ClientInviteAction::Cancel(t) => drop(self.running.remove(&format!("{t:?}"))),
                ClientInviteAction::Terminate { reason } => o.ended.push(reason.to_string()),
            }
        }
        o
    }
    fn client(&mut self, a: Vec<ClientAction>) -> Out {
        let mut o = Out::default();
        for x in a {
            match x {
                ClientAction::Transmit { bytes, .. } => o.sent.push(bytes),
                ClientAction::Deliver(r) => o.delivered.push(which(&r)),
                ClientAction::Schedule { timer, duration } => self.sched(&mut o, timer, duration),
                ClientAction::Cancel(t) => drop(self.running.remove(&format!("{t:?}"))),
                ClientAction::Terminate { reason } => o.ended.push(reason.to_string()),
            }
        }
        o
    }
    fn server_invite(&mut self, a: Vec<ServerInviteAction>) -> Out {
        let mut o = Out::default();
        for x in a {
            match x {
                ServerInviteAction::Transmit { bytes, .. } => o.sent.push(bytes),
                ServerInviteAction::Schedule { timer, duration } => self.sched(&mut o, timer, duration),
                ServerInviteAction::Cancel(t) => drop(self.running.remove(&format!("{t:?}"))),
                ServerInviteAction::Terminate { reason } => o.ended.push(reason.to_string()),
            }
        }
        o
    }
    fn server(&mut self, a: Vec<ServerAction>) -> Out {
        let mut o = Out::default();
        for x in a {
            match x {
                ServerAction::Transmit { bytes, .. } => o.sent.push(bytes),
                ServerAction::Schedule { timer, duration } => self.sched(&mut o, timer, duration),
                ServerAction::Cancel(t) => drop(self.running.remove(&format!("{t:?}"))),
                ServerAction::Terminate { reason } => o.ended.push(reason.to_string()),
            }
        }
        o
    }
    fn start(&mut self, req: &Request) -> Out {
        match &mut self.imp {
            Impl::CI(f) => {
                let a = f.on_event(ClientInviteEvent::SendInvite(req.clone()));
                self.client_invite(a)
            }
            Impl::CO(f) => {
                let a = f.on_event(ClientNonInviteEvent::SendRequest(req.clone()));
                self.client(a)
            }
            Impl::SI(f) => {
                let a = f.on_event(ServerInviteEvent::ReceiveInvite(req.clone()));
                self.server_invite(a)
            }
            Impl::SO(f) => {
                let a = f.on_event(ServerNonInviteEvent::ReceiveRequest(req.clone()));
                self.server(a)
            }
        }
    }
    /// None: the event cannot happen now (the timer was never armed).
    fn step(&mut self, ev: Ev, resp: &[Response]) -> Option<Out> {
        if let Ev::Fire(t) = ev {
            let k = format!("{t:?}");
            match self.tokens.get_mut(&k) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return None,
            }
            self.running.remove(&k);
        }
        let out = match (&mut self.imp, ev) {
            (Impl::CI(f), Ev::Resp(i)) => {
                let r = resp[i].clone();
                let a = f.on_event(if r.code() < 200 { ClientInviteEvent::ReceiveProvisional(r) } else { ClientInviteEvent::ReceiveFinal(r) });
                self.client_invite(a)
            }
            (Impl::CI(f), Ev::Fire(t)) => {
                let a = f.on_event(ClientInviteEvent::TimerFired(t));
                self.client_invite(a)
            }
            (Impl::CI(f), Ev::Error) => {
                let a = f.on_event(ClientInviteEvent::TransportError);
                self.client_invite(a)
            }
            (Impl::CO(f), Ev::Resp(i)) => {
                let r = resp[i].clone();
                let a = f.on_event(if r.code() < 200 { ClientNonInviteEvent::ReceiveProvisional(r) } else { ClientNonInviteEvent::ReceiveFinal(r) });
                self.client(a)
            }
            (Impl::CO(f), Ev::Fire(t)) => {
                let a = f.on_event(ClientNonInviteEvent::TimerFired(t));
                self.client(a)
            }
            (Impl::CO(f), Ev::Error) => {
                let a = f.on_event(ClientNonInviteEvent::TransportError);
                self.client(a)
            }
            (Impl::SI(f), e) => {
                let a = match e {
                    Ev::Resp(i) if resp[i].code() < 200 => f.on_event(ServerInviteEvent::SendProvisional(resp[i].clone())),
                    Ev::Resp(i) => f.on_event(ServerInviteEvent::SendFinal(resp[i].clone())),
                    Ev::Again => f.on_retransmit(),
                    Ev::Ack => f.on_event(ServerInviteEvent::ReceiveAck),
                    Ev::Cancel => f.on_event(ServerInviteEvent::ReceiveCancel),
                    Ev::Fire(t) => f.on_event(ServerInviteEvent::TimerFired(t)),
                    Ev::Error => f.on_event(ServerInviteEvent::TransportError),
                };
                self.server_invite(a)
            }
            (Impl::SO(f), e) => {
                let a = match e {
                    Ev::Resp(i) if resp[i].code() < 200 => f.on_event(ServerNonInviteEvent::SendProvisional(resp[i].clone())),
                    Ev::Resp(i) => f.on_event(ServerNonInviteEvent::SendFinal(resp[i].clone())),
                    Ev::Again => f.on_retransmit(),
                    Ev::Fire(t) => f.on_event(ServerNonInviteEvent::TimerFired(t)),
                    Ev::Error => f.on_event(ServerNonInviteEvent::TransportError),
                    _ => return None,
                };
                self.server(a)
            }
            _ => return None,
        };
        Some(out)
    }
}

pub fn class(reason: &str) -> &'static str {
    let r = reason.to_ascii_lowercase();
    if r.contains("transport") {
        "transport error"
    } else if ["timer b", "timer f", "timer h"].iter().any(|t| r.contains(t)) {
        "timeout"
    } else {
        "done"
    }
}

/// The outputs of one step, as a user sees them.
fn diff(kind: Kind, want: &Out, got: &Out) -> Option<(&'static str, String)> {
    let text = |v: &[Bytes]| v.iter().map(|b| String::from_utf8_lossy(b).lines().next().unwrap_or("").to_string()).collect::<Vec<_>>();
    if want.sent != got.sent {
        return Some(("sent", format!("transmits {:?}, expected {:?}", text(&got.sent), text(&want.sent))));
    }
    let names = |v: &[usize]| v.iter().map(|i| RESP.get(*i).map(|r| format!("{} {}", r.0, r.1)).unwrap_or("?".into())).collect::<Vec<_>>();
    if want.delivered != got.delivered {
        return Some(("delivered", format!("passes {:?} to its user, expected {:?}", names(&got.delivered), names(&want.delivered))));
    }
    if want.acks != got.acks {
        return Some(("ack", format!("acknowledges {:?}, expected {:?}", got.acks, want.acks)));
    }
    if want.pracks != got.pracks {
        return Some(("prack", format!("expects PRACK for {:?}, expected {:?}", names(&got.pracks), names(&want.pracks))));
    }
    if want.armed != got.armed {
        return Some(("timers", format!("starts timers {:?}, expected {:?}", got.armed, want.armed)));
    }
    let w: Vec<&str> = want.ended.iter().map(|s| s.as_str()).collect();
    let g: Vec<&str> = got.ended.iter().map(|s| class(s)).collect();
    // clients report only abnormal ends to their user
    let _ = kind;
    if w != g {
        return Some(("ended", format!("reports the end as {:?}, expected {:?}", got.ended, want.ended)));
    }
    None
}

fn alphabet(k: Kind, big: bool) -> Vec<Ev> {
    let mut v = match k {
        ClientInvite => vec![Ev::Resp(1), Ev::Resp(2), Ev::Resp(3), Ev::Resp(5), Ev::Resp(6), Ev::Fire(T::A), Ev::Fire(T::B), Ev::Fire(T::D), Ev::Error],
        ClientOther => vec![Ev::Resp(0), Ev::Resp(1), Ev::Resp(3), Ev::Resp(5), Ev::Fire(T::E), Ev::Fire(T::F), Ev::Fire(T::K), Ev::Error],
        ServerInvite => vec![Ev::Resp(0), Ev::Resp(1), Ev::Resp(3), Ev::Resp(5), Ev::Resp(6), Ev::Again, Ev::Ack, Ev::Cancel, Ev::Fire(T::G), Ev::Fire(T::H), Ev::Fire(T::I), Ev::Error],
        ServerOther => vec![Ev::Resp(0), Ev::Resp(1), Ev::Resp(3), Ev::Resp(5), Ev::Again, Ev::Fire(T::J), Ev::Error],
    };
    if big {
        v.extend(match k {
            ClientInvite => vec![Ev::Resp(0), Ev::Resp(4), Ev::Resp(7), Ev::Resp(8), Ev::Resp(9), Ev::Resp(10), Ev::Resp(11)],
            _ => vec![Ev::Resp(4), Ev::Resp(7), Ev::Resp(2)],
        });
    }
    v
}

fn walk(run: &Run, k: Kind, t: Transport, d: TimerDefaults, alpha: &[Ev], len: usize) {
    for n in 0..=len {
        walk_len(run, k, t, d, alpha, n);
    }
}

fn walk_len(run: &Run, k: Kind, t: Transport, d: TimerDefaults, alpha: &[Ev], len: usize) {
    let m = if matches!(k, ClientInvite | ServerInvite) { Method::Invite } else { Method::Options };
    let req = request(m);
    let wire = serialize_request(&req);
    let resp: Vec<Response> = (0..RESP.len()).map(response).collect();
    let rwire: Vec<Bytes> = resp.iter().map(serialize_response).collect();
    sequences(run, alpha.len(), len, |seq| {
        let mut model = Model::new(k, t.is_reliable(), d, wire.clone(), rwire.clone());
        let mut sys = Sys::new(k, t, d);
        let name = |n: usize| format!("{k:?} {t:?} {:?} {:?}", d.t1, seq[..n].iter().map(|&i| show(alpha[i])).collect::<Vec<_>>().join(" "));
        let (w, g) = (model.start(), sys.start(&req));
        if let Some((p, why)) = diff(k, &w, &g) {
            run.violation(format!("{p}: {}", name(0)), format!("on its request the transaction {why}"));
            return;
        }
        let mut done = 0;
        for (n, &i) in seq.iter().enumerate() {
            let before = model.st;
            let Some(g) = sys.step(alpha[i], &resp) else { break };
            let w = model.step(alpha[i]);
            run.step(1);
            done = n + 1;
            if let Some((p, why)) = diff(k, &w, &g) {
                run.violation(format!("{p}: {}", name(n + 1)), format!("in {before:?} on {} the transaction {why}", show(alpha[i])));
                return;
            }
            if sys.terminated() != (model.st == St::Terminated) {
                run.violation(format!("state: {}", name(n + 1)), format!("the transaction is {}, expected {:?}", sys.state(), model.st));
                return;
            }
            for (x, v) in &model.live {
                if sys.running.get(x) != Some(v) {
                    run.violation(format!("timer {x}: {}", name(n + 1)), format!("timer {x} must be running with {v:?} in {:?}; running: {:?}", model.st, sys.running));
                    return;
                }
            }
        }
        run.state(&(k as u8, t, d.t1, model.st, model.interval, model.last, model.fin, format!("{:?}{:?}", model.live, sys.tokens)));
        // left alone, the transaction ends: its own timers are enough
        let waits = match k {
            ClientInvite => model.st == St::Proceeding,
            ServerInvite | ServerOther => model.st == St::Proceeding,
            _ => false,
        };
        if !waits && done == seq.len() {
            let mut now: BTreeMap<String, Duration> = sys.running.clone();
            for _ in 0..200 {
                if sys.terminated() {
                    break;
                }
                let Some((x, at)) = now.iter().map(|(a, b)| (a.clone(), *b)).min_by_key(|p| p.1) else { break };
                now.remove(&x);
                let Some(o) = sys.step(Ev::Fire(timer(&x)), &resp) else { break };
                run.step(1);
                for (y, dur) in o.armed {
                    now.insert(y, at + dur);
                }
            }
            run.check(sys.terminated(), || format!("end: {}", name(seq.len())), || format!("left to its timers the transaction stays {} with {:?}", sys.state(), sys.running));
        }
        run.trace();
    });
}

pub fn timer(s: &str) -> T {
    match s {
        "A" => T::A,
        "B" => T::B,
        "D" => T::D,
        "E" => T::E,
        "F" => T::F,
        "G" => T::G,
        "H" => T::H,
        "I" => T::I,
        "J" => T::J,
        _ => T::K,
    }
}

fn show(e: Ev) -> String {
    match e {
        Ev::Resp(i) => format!("{}", if i == 99 { "?".into() } else { format!("{}-{}", RESP[i].0, RESP[i].1) }),
        Ev::Fire(t) => format!("timer-{t:?}"),
        e => format!("{e:?}").to_lowercase(),
    }
}

fn all(run: &Run, kinds: [Kind; 2]) {
    let ms = Duration::from_millis;
    let defaults = TimerDefaults::default();
    let odd = TimerDefaults { t1: ms(300), t2: ms(1000), t4: ms(700) };
    let flat = TimerDefaults { t1: ms(900), t2: ms(400), t4: ms(50) };
    for k in kinds {
        for t in [Transport::Udp, Transport::Tcp, Transport::Tls] {
            walk(run, k, t, defaults, &alphabet(k, false), run.pick(6, 7));
        }
        walk(run, k, Transport::Udp, defaults, &alphabet(k, true), run.pick(4, 5));
        for d in [odd, flat] {
            walk(run, k, Transport::Udp, d, &alphabet(k, false), run.pick(4, 6));
        }
        // long chains of retransmissions
        let chain: &[Ev] = match k {
            ClientInvite => &[Ev::Fire(T::A), Ev::Resp(1), Ev::Resp(5)],
            ClientOther => &[Ev::Fire(T::E), Ev::Resp(1), Ev::Resp(3)],
            ServerInvite => &[Ev::Fire(T::G), Ev::Again, Ev::Ack],
            ServerOther => &[Ev::Again, Ev::Resp(0), Ev::Resp(3)],
        };
        walk(run, k, Transport::Udp, defaults, chain, run.pick(11, 13));
        walk(run, k, Transport::Udp, odd, chain, run.pick(9, 12));
    }
    run.assume("a transaction is started exactly once, with its request");
    run.assume("no ACK is given to a non-INVITE server transaction");
    run.assume("while an INVITE is proceeding, and before a server's user answers, the end of the transaction is the user's decision");
    run.note("oracle", "reference automaton of RFC 3261 section 17 with the module's documented timer values");
}

pub fn p24(run: &Run) {
    all(run, [ClientInvite, ClientOther]);
}
pub fn p25(run: &Run) {
    all(run, [ServerInvite, ServerOther]);
}
