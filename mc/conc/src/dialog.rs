//! P13, P14: interleavings of the dialog registries and of reliable provisional responses.
use crate::lin::*;
use common::{par_for, vclock, Run};
use sip_core::{Method, Request, SipUri};
use sip_dialog::prack_validator::PrackValidator;
use sip_dialog::storage::{DialogStore, InMemoryDialogStore};
use sip_dialog::*;
use smol_str::SmolStr;
use std::time::Duration;

fn uri(s: &str) -> SipUri {
    SipUri::parse(s).unwrap()
}
/// A future that never waits.
fn block<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(v) => v,
        std::task::Poll::Pending => panic!("an operation of the in-memory store waits"),
    }
}
fn req(text: &str) -> Request {
    sip_parse::parse_request(&bytes::Bytes::copy_from_slice(text.as_bytes())).unwrap()
}
#[derive(Clone, Copy, Debug, Hash, PartialEq)]
pub enum Op {
    /// id, state: 0 early or active, 1 confirmed or pending, 2 terminated
    Put(usize, usize),
    Get(usize),
    Find(usize),
    Del(usize),
    /// removal of what is terminated, as seen for one id
    Clean(usize),
    CleanAll,
    List,
}
use Op::*;
#[derive(Clone, Debug, PartialEq, Hash)]
pub enum R {
    Ok,
    Refused,
    Done,
    Got(Option<(usize, u32)>),
    All(Vec<u32>),
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct E {
    id: usize,
    state: usize,
    mark: u32,
}
type M = Vec<E>;
const STATES: [DialogStateType; 3] = [DialogStateType::Early, DialogStateType::Confirmed, DialogStateType::Terminated];
const SUBS: [SubscriptionState; 3] = [SubscriptionState::Active, SubscriptionState::Pending, SubscriptionState::Terminated];
fn id(i: usize) -> DialogId {
    DialogId::unchecked_new(if i < 50 { "c1" } else { "c2" }, "l", format!("r{i}"))
}
fn dialog(i: usize, st: usize, mark: u32) -> Dialog {
    Dialog::unchecked_new(id(i), STATES[st], uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), mark, 0, None, vec![], false, None, None, true)
}
fn sid(i: usize) -> SubscriptionId {
    SubscriptionId::unchecked_new("c1", "f", format!("t{i}"), "presence")
}
fn sub(i: usize, st: usize, mark: u32) -> Subscription {
    Subscription::unchecked_new(sid(i), SUBS[st], uri("sip:a@h"), uri("sip:b@h"), uri("sip:b@d"), Duration::from_secs(60), mark, 0)
}
fn ix<T: PartialEq>(l: &[T], x: T) -> usize {
    l.iter().position(|y| *y == x).unwrap()
}

/// What the registries share. `kind`: 0 DialogManager, 1 SubscriptionManager, 2 InMemoryDialogStore.
pub enum Reg {
    D(DialogManager),
    S(SubscriptionManager),
    St(InMemoryDialogStore),
}
struct Registry {
    kind: usize,
    setup: usize,
    cap: usize,
    early: usize,
    reqs: Vec<Request>,
}
/// name, state of id 0 if present, early ones of the same call below the early limit, others below the total limit
const SETUPS: [(&str, Option<usize>, Option<usize>, Option<usize>); 8] = [
    ("empty", None, None, None), ("first early", Some(0), None, None), ("first terminated", Some(2), None, None), ("one below the early limit", None, Some(1), None),
    ("first early, at the early limit", Some(0), Some(1), None), ("one below the limit", None, None, Some(1)), ("first terminated, at the limit", Some(2), None, Some(1)), ("first early, one below the limit", Some(0), None, Some(2)),
];
impl Registry {
    fn limited(kind: usize, setup: usize) -> bool {
        SETUPS[setup].2.is_some() && kind != 0
    }
    fn view(&self, s: &Reg, i: usize) -> Option<(usize, u32)> {
        match s {
            Reg::D(m) => m.get(&id(i)).map(|d| (ix(&STATES, d.state()), d.local_cseq())),
            Reg::S(m) => m.get(&sid(i)).map(|d| (ix(&SUBS, d.state()), d.local_cseq())),
            Reg::St(m) => block(m.get(&id(i))).map(|d| (ix(&STATES, d.state()), d.local_cseq())),
        }
    }
    fn put(&self, s: &Reg, i: usize, st: usize, mark: u32) -> R {
        let ok = match s {
            Reg::D(m) => m.insert(dialog(i, st, mark)).is_ok(),
            Reg::S(m) => m.insert(sub(i, st, mark)).is_ok(),
            Reg::St(m) => {
                block(m.put(dialog(i, st, mark)));
                return R::Done;
            }
        };
        if ok { R::Ok } else { R::Refused }
    }
    fn list(s: &Reg) -> Vec<u32> {
        let mut v: Vec<u32> = match s {
            Reg::D(m) => m.all_ids().iter().filter(|i| i.call_id() == "c1").filter_map(|i| m.get(i)).map(|d| d.local_cseq()).collect(),
            Reg::S(m) => m.all().iter().map(|d| d.local_cseq()).collect(),
            Reg::St(m) => block(m.list_by_call_id(&SmolStr::new("c1"))).iter().map(|d| d.local_cseq()).collect(),
        };
        v.sort();
        v
    }
}
impl Sys for Registry {
    type S = Reg;
    type O = Op;
    type R = R;
    type M = M;
    fn setup_name(&self) -> String {
        format!("{}, {}", ["dialogs", "subscriptions", "dialog store"][self.kind], SETUPS[self.setup].0)
    }
    fn mk(&self) -> Reg {
        let s = match self.kind {
            0 => Reg::D(DialogManager::new()),
            1 => Reg::S(SubscriptionManager::new()),
            _ => Reg::St(InMemoryDialogStore::default()),
        };
        for e in self.init() {
            self.put(&s, e.id, e.state, e.mark);
        }
        s
    }
    fn init(&self) -> M {
        let (_, first, early, total) = SETUPS[self.setup];
        let mut m: M = first.map(|state| E { id: 0, state, mark: 50 }).into_iter().collect();
        if let Some(less) = early {
            // `first` is one of the early ones
            m.extend((first.is_some() as usize..self.early - less + first.is_some() as usize).map(|i| E { id: 10 + i, state: 0, mark: 51 }));
        }
        if let Some(less) = total {
            while m.len() < self.cap + first.is_some() as usize - less {
                m.push(E { id: 60 + m.len(), state: 1, mark: 52 });
            }
        }
        m
    }
    fn parts(&self, op: Op) -> Vec<Op> {
        // the removal of terminated entries is one step for each entry
        if op == CleanAll { vec![Clean(0), Clean(1)] } else { vec![op] }
    }
    fn call(&self, s: &Reg, op: Op, mark: u32) -> R {
        match (op, s) {
            (Put(i, st), _) => self.put(s, i, st, mark),
            (Get(i), _) => R::Got(self.view(s, i)),
            (Find(i), Reg::D(m)) => R::Got(m.find_by_request(&self.reqs[i]).map(|d| (ix(&STATES, d.state()), d.local_cseq()))),
            (Del(i), Reg::D(m)) => R::Got(m.remove(&id(i)).map(|d| (ix(&STATES, d.state()), d.local_cseq()))),
            (Del(i), Reg::S(m)) => R::Got(m.remove(&sid(i)).map(|d| (ix(&SUBS, d.state()), d.local_cseq()))),
            (Del(i), Reg::St(m)) => {
                block(m.remove(&id(i)));
                R::Done
            }
            (CleanAll, Reg::D(m)) => {
                m.cleanup_terminated();
                R::Done
            }
            (CleanAll, Reg::S(m)) => {
                m.cleanup_terminated();
                R::Done
            }
            (List, _) => R::All(Self::list(s)),
            _ => R::Done,
        }
    }
    fn apply(&self, m: &mut M, op: Op, mark: u32, r: &R) -> bool {
        let get = |m: &M, i: usize| m.iter().find(|e| e.id == i).map(|e| (e.state, e.mark));
        match op {
            Put(i, st) => {
                let others = m.iter().filter(|e| e.id != i).count();
                let early = m.iter().filter(|e| e.id != i && e.state == 0 && e.id < 50).count();
                if others >= self.cap || self.kind == 0 && st == 0 && early >= self.early {
                    return matches!(r, R::Refused | R::Done);
                }
                m.retain(|e| e.id != i);
                m.push(E { id: i, state: st, mark });
                m.sort();
                matches!(r, R::Ok | R::Done)
            }
            Get(i) | Find(i) => *r == R::Done || *r == R::Got(get(m, i)),
            Del(i) => {
                let ok = *r == R::Done || *r == R::Got(get(m, i));
                m.retain(|e| e.id != i);
                ok
            }
            Clean(i) => {
                m.retain(|e| !(e.id == i && e.state == 2));
                true
            }
            CleanAll => true,
            List => {
                let mut w: Vec<u32> = m.iter().filter(|e| e.id < 50).map(|e| e.mark).collect();
                w.sort();
                // only the store's index promises all of a call's dialogs at one moment
                self.kind != 2 || *r == R::All(w)
            }
        }
    }
    fn observe(&self, s: &Reg) -> String {
        format!("{:?} {:?}", [0, 1].map(|i| self.view(s, i)), if self.setup < 3 { Self::list(s) } else { vec![] })
    }
    fn fin(&self, m: &M, seen: &str) -> bool {
        let get = |i: usize| m.iter().find(|e| e.id == i).map(|e| (e.state, e.mark));
        let mut w: Vec<u32> = m.iter().map(|e| e.mark).collect();
        w.sort();
        format!("{:?} {:?}", [0, 1].map(get), if self.setup < 3 { w } else { vec![] }) == seen
    }
    fn always(&self, s: &Reg) -> Option<String> {
        let n = match s {
            Reg::D(m) => {
                let early = m.all_ids().iter().filter(|i| i.call_id() == "c1" && m.get(i).is_some_and(|d| d.state() == STATES[0])).count();
                if early > self.early {
                    return Some(format!("{early} early dialogs of one call, limit {}", self.early));
                }
                m.count()
            }
            Reg::S(m) => m.all().len(),
            Reg::St(m) => m.count(),
        };
        (n > self.cap).then(|| format!("{n} entries, limit {}", self.cap))
    }
}
const DOPS: [Op; 9] = [Put(0, 0), Put(1, 0), Del(0), Get(0), CleanAll, Put(0, 2), Put(1, 1), Find(1), Put(0, 1)];
const STOPS: [Op; 7] = [Put(0, 0), Put(1, 0), Del(0), Get(0), List, Del(1), Get(1)];

pub fn p13(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 threads with 2 operations and 3 threads with 1 on each registry, every schedule up to the preemption bound, results and final contents explained by some order of the operations (removal of terminated entries: entry by entry), limits never exceeded");
    run.assume(SC);
    vclock::reset();
    let m = DialogManager::new();
    let cap_d = (0..60).position(|i| m.insert(dialog(60 + i, 1, 1)).is_err());
    let m = DialogManager::new();
    let early = (0..40).position(|i| m.insert(dialog(i, 0, 1)).is_err());
    let m = SubscriptionManager::new();
    let cap_s = (0..60).position(|i| m.insert(sub(i, 0, 1)).is_err());
    let m = InMemoryDialogStore::default();
    let cap_st = (0..60).position(|i| {
        block(m.put(dialog(i, 1, 1)));
        m.count() == i
    });
    let caps = [cap_d, cap_s, cap_st];
    run.note("limits in the explored copy", format!("{caps:?}, early {early:?}"));
    let reqs: Vec<Request> = (0..2)
        .map(|i| req(&format!("BYE sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:b@h>;tag=r{i}\r\nTo: <sip:a@h>;tag=l\r\nCall-ID: c1\r\nCSeq: 1 BYE\r\nContent-Length: 0\r\n\r\n")))
        .collect();
    let mut work = vec![];
    for kind in 0..3 {
        let ops: &'static [Op] = if kind == 2 { &STOPS } else { &DOPS };
        let mut progs = programs(ops.len(), 2, 2);
        progs.extend(programs(ops.len(), 3, 1));
        if run.thorough() {
            progs.extend(programs(5, 3, 2));
        }
        for p in progs {
            work.push((kind, ops, p));
        }
    }
    let bound = run.pick(2, 3);
    run.note("preemption bound", bound);
    run.note("programs", work.len());
    let schedules = std::sync::atomic::AtomicU64::new(0);
    par_for(run, work.len(), |w| {
        let (kind, ops, prog) = &work[w];
        for (setup, s) in SETUPS.iter().enumerate() {
            let at_limit = s.2.is_some() || s.3.is_some();
            let puts = prog.iter().flatten().filter(|&&o| matches!(ops[o], Put(..))).count();
            if Registry::limited(*kind, setup) || s.3.is_some() && caps[*kind].is_none() || s.2.is_some() && early.is_none() || at_limit && puts < 2 && !run.thorough() {
                continue;
            }
            let sys = Registry { kind: *kind, setup, cap: caps[*kind].unwrap_or(usize::MAX), early: early.unwrap_or(usize::MAX), reqs: reqs.clone() };
            schedules.fetch_add(explore(run, &sys, ops, prog, bound), std::sync::atomic::Ordering::Relaxed);
        }
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
}

// ------------------------------------------------------------ P14

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum P {
    Next(usize),
    Cur(usize),
    End(usize),
    Reg(u32, u32),
    Ack(u32, u32),
    Pending,
    Forget(u32),
    Drop,
}
#[derive(Clone, Debug, PartialEq, Hash)]
enum A {
    /// a number, as a distance from the first one of its dialog's life
    Num(Option<u32>),
    Ok(bool),
    List(Vec<(u32, u16)>),
    Done,
}
struct Reliable {
    /// (number, request, acknowledged)
    before: &'static [(u32, u32, bool)],
    acks: Vec<((u32, u32), Request)>,
}
#[derive(Clone, Default)]
struct RM {
    num: [Option<u32>; 2],
    rel: Vec<(u32, u32, bool)>,
}
impl Sys for Reliable {
    type S = (RSeqManager, PrackValidator);
    type O = P;
    type R = A;
    type M = RM;
    fn setup_name(&self) -> String {
        format!("reliable responses {:?}", self.before)
    }
    fn mk(&self) -> Self::S {
        let s = (RSeqManager::new(), PrackValidator::new());
        for &(n, c, done) in self.before {
            self.call(&s, P::Reg(n, c), 0);
            if done {
                self.call(&s, P::Ack(n, c), 0);
            }
        }
        s
    }
    fn init(&self) -> RM {
        RM { num: [None; 2], rel: self.before.to_vec() }
    }
    fn call(&self, (r, v): &Self::S, op: P, _: u32) -> A {
        match op {
            P::Next(d) => A::Num(Some(r.next_rseq(&id(d)))),
            P::Cur(d) => A::Num(r.current_rseq(&id(d))),
            P::End(d) => {
                r.remove(&id(d));
                A::Done
            }
            P::Reg(n, c) => {
                v.register_reliable_provisional("d", n, c, Method::Invite, 183);
                A::Done
            }
            P::Ack(n, c) => A::Ok(v.validate_prack("d", &self.acks.iter().find(|a| a.0 == (n, c)).unwrap().1).is_ok()),
            P::Pending => A::List(v.get_pending("d")),
            P::Forget(n) => {
                v.remove_pracked("d", n);
                A::Done
            }
            P::Drop => {
                v.remove_dialog("d");
                A::Done
            }
        }
    }
    fn apply(&self, m: &mut RM, op: P, _: u32, r: &A) -> bool {
        match (op, r) {
            (P::Next(d), A::Num(Some(n))) => {
                let ok = m.num[d].map_or((1..=0x7FFF_FFFF).contains(n), |c| *n == c + 1);
                m.num[d] = Some(*n);
                ok
            }
            (P::Cur(d), A::Num(n)) => *n == m.num[d],
            (P::End(d), _) => {
                m.num[d] = None;
                true
            }
            (P::Reg(n, c), _) => {
                m.rel.push((n, c, false));
                m.rel.sort();
                true
            }
            (P::Ack(n, c), A::Ok(ok)) => match m.rel.iter_mut().find(|e| **e == (n, c, false)) {
                Some(e) => {
                    e.2 = true;
                    *ok
                }
                None => !*ok,
            },
            (P::Pending, A::List(l)) => {
                let mut l: Vec<u32> = l.iter().map(|e| e.0).collect();
                l.sort();
                l == m.rel.iter().filter(|e| !e.2).map(|e| e.0).collect::<Vec<_>>()
            }
            (P::Forget(_), _) => true,
            (P::Drop, _) => {
                m.rel.clear();
                true
            }
            _ => false,
        }
    }
    fn observe(&self, s: &Self::S) -> String {
        let mut l: Vec<u32> = s.1.get_pending("d").iter().map(|e| e.0).collect();
        l.sort();
        format!("{:?} {l:?}", [0, 1].map(|d| s.0.current_rseq(&id(d))))
    }
    fn fin(&self, m: &RM, seen: &str) -> bool {
        format!("{:?} {:?}", m.num, m.rel.iter().filter(|e| !e.2).map(|e| e.0).collect::<Vec<_>>()) == seen
    }
}
const NUMBERS: [P; 4] = [P::Next(0), P::Next(1), P::Cur(0), P::End(0)];
const ACKS: [P; 7] = [P::Reg(1, 7), P::Ack(1, 7), P::Reg(2, 7), P::Ack(2, 7), P::Forget(1), P::Drop, P::Pending];

pub fn p14(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 threads with 2 or 3 operations and 3 threads with 1 or 2, every schedule up to the preemption bound, results and pending sets explained by some order of the operations");
    run.assume(SC);
    vclock::reset();
    let acks: Vec<_> = [(1, 7), (2, 7)]
        .into_iter()
        .map(|(n, c)| ((n, c), req(&format!("PRACK sip:x@h SIP/2.0\r\nVia: SIP/2.0/UDP h;branch=z9hG4bKx\r\nMax-Forwards: 70\r\nFrom: <sip:b@h>;tag=a\r\nTo: <sip:a@h>;tag=b\r\nCall-ID: c1\r\nCSeq: 8 PRACK\r\nRAck: {n} {c} INVITE\r\nContent-Length: 0\r\n\r\n"))))
        .collect();
    let mut work: Vec<(&'static [P], &'static [(u32, u32, bool)], Vec<Vec<usize>>)> = vec![];
    let befores: [&'static [(u32, u32, bool)]; 4] = [&[], &[(1, 7, false)], &[(1, 7, true)], &[(1, 7, false), (2, 7, true)]];
    for (ops, befores) in [(&NUMBERS[..], &befores[..1]), (&ACKS[..], &befores[..])] {
        for b in befores {
            let mut progs = programs(ops.len(), 2, 2);
            progs.extend(programs(ops.len(), 3, 1));
            progs.extend(programs(if ops.len() == 4 { 4 } else { 3 }, 2, 3));
            if run.thorough() {
                progs.extend(programs(4, 3, 2));
            }
            // a number is registered once
            progs.retain(|p| [0, 2].iter().all(|&o| ops.len() == 4 || p.iter().flatten().filter(|&&x| x == o).count() + b.iter().filter(|e| e.0 == 1 + o as u32 / 2).count() <= 1));
            work.extend(progs.into_iter().map(|p| (ops, *b, p)));
        }
    }
    let bound = run.pick(2, 3);
    run.note("preemption bound", bound);
    run.note("programs", work.len());
    let schedules = std::sync::atomic::AtomicU64::new(0);
    par_for(run, work.len(), |w| {
        let (ops, before, prog) = &work[w];
        schedules.fetch_add(explore(run, &Reliable { before, acks: acks.clone() }, ops, prog, bound), std::sync::atomic::Ordering::Relaxed);
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
}
