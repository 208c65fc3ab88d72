//! P11: interleavings of location store operations.
use crate::lin::*;
use common::{par_for, vclock, Run};
use sip_registrar::*;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct E {
    aor: usize,
    contact: String,
    mark: u32,
    live: bool,
}
type M = Vec<E>;
#[derive(Clone, Copy, Debug, Hash)]
enum Op {
    Up(usize, usize),
    Del(usize, usize),
    DelAll(usize),
    Look(usize),
    Clean,
}
const OPS: [Op; 8] = [Op::Up(0, 0), Op::Up(0, 1), Op::Up(1, 0), Op::Del(0, 0), Op::DelAll(0), Op::Look(0), Op::Clean, Op::Look(1)];
const AORS: [&str; 2] = ["sip:a@h", "sip:b@h"];
const CONTACTS: [&str; 2] = ["sip:x@d", "sip:y@d"];
#[derive(Clone, Debug, PartialEq, Hash)]
enum R {
    Ok,
    Refused,
    List(Vec<(String, u32)>),
    Removed(usize),
}
fn b(aor: &str, c: &str, secs: u64, mark: u32) -> Binding {
    Binding::new(aor.into(), c.into(), Duration::from_secs(secs)).unwrap().with_cseq(mark).unwrap()
}
/// (name, live bindings of a, expired ones, x present in a: 0 no 1 live 2 expired, live bindings of b up to the total limit less this)
const SETUPS: [(&str, usize, usize, u8, Option<usize>); 8] = [
    ("empty", 0, 0, 0, None), ("x", 0, 0, 1, None), ("x expired", 0, 0, 2, None), ("19 others", 19, 0, 0, None), ("18 others and x", 18, 0, 1, None), ("19 others, one expired", 19, 1, 0, None), ("one below the total", 1, 0, 0, Some(1)),
    ("at the total with one expired", 1, 1, 0, Some(0)),
];

struct Store {
    setup: usize,
    cap: usize,
}
fn look(st: &MemoryLocationStore, a: &str) -> Vec<(String, u32)> {
    let mut v: Vec<_> = st.lookup(a).unwrap().iter().map(|b| (b.contact().to_string(), b.cseq())).collect();
    v.sort();
    v
}
fn list(m: &M, a: usize) -> Vec<(String, u32)> {
    let mut v: Vec<_> = m.iter().filter(|e| e.aor == a && e.live).map(|e| (e.contact.clone(), e.mark)).collect();
    v.sort();
    v
}
impl Sys for Store {
    type S = MemoryLocationStore;
    type O = Op;
    type R = R;
    type M = M;
    fn setup_name(&self) -> String {
        SETUPS[self.setup].0.into()
    }
    fn mk(&self) -> MemoryLocationStore {
        let st = MemoryLocationStore::new();
        for e in self.init() {
            let aor = AORS.get(e.aor).map_or(format!("sip:t{}@h", e.aor), |a| a.to_string());
            st.upsert(b(&aor, &e.contact, if e.live { 1000 } else { 60 }, e.mark)).unwrap();
        }
        vclock::advance_ms(60_000);
        st
    }
    fn init(&self) -> M {
        let (_, others, dead, x, tot) = SETUPS[self.setup];
        let mut init: M = (0..others).map(|i| E { aor: 0, contact: format!("sip:p{i}@d"), mark: 50, live: i >= dead }).collect();
        if x > 0 {
            init.push(E { aor: 0, contact: CONTACTS[0].into(), mark: 51, live: x == 1 });
        }
        if let Some(less) = tot {
            while init.len() < self.cap - less {
                init.push(E { aor: 100 + init.len(), contact: CONTACTS[0].into(), mark: 52, live: true });
            }
        }
        init
    }
    fn call(&self, s: &MemoryLocationStore, op: Op, mark: u32) -> R {
        let f = |r: anyhow::Result<()>| if r.is_ok() { R::Ok } else { R::Refused };
        match op {
            Op::Up(a, c) => f(s.upsert(b(AORS[a], CONTACTS[c], 100, mark))),
            Op::Del(a, c) => f(s.remove(AORS[a], CONTACTS[c])),
            Op::DelAll(a) => f(s.remove_all(AORS[a])),
            Op::Look(a) => R::List(look(s, AORS[a])),
            Op::Clean => s.cleanup_expired().map_or(R::Refused, R::Removed),
        }
    }
    fn apply(&self, m: &mut M, op: Op, mark: u32, r: &R) -> bool {
        match op {
            Op::Up(a, c) => {
                let other = |e: &&E| e.live && !(e.aor == a && e.contact == CONTACTS[c]);
                if m.iter().filter(other).filter(|e| e.aor == a).count() >= 20 || m.iter().filter(other).count() >= self.cap {
                    return *r == R::Refused;
                }
                m.retain(|e| !(e.aor == a && e.contact == CONTACTS[c]));
                m.push(E { aor: a, contact: CONTACTS[c].into(), mark, live: true });
                *r == R::Ok
            }
            Op::Del(a, c) => {
                m.retain(|e| !(e.aor == a && e.contact == CONTACTS[c]));
                *r == R::Ok
            }
            Op::DelAll(a) => {
                m.retain(|e| e.aor != a);
                *r == R::Ok
            }
            Op::Look(a) => *r == R::List(list(m, a)),
            // another operation may have dropped expired bindings before
            Op::Clean => matches!(r, R::Removed(n) if *n <= SETUPS[self.setup].2 + (SETUPS[self.setup].3 == 2) as usize),
        }
    }
    fn observe(&self, s: &MemoryLocationStore) -> String {
        format!("{:?}", AORS.map(|a| look(s, a)))
    }
    fn fin(&self, m: &M, seen: &str) -> bool {
        format!("{:?}", [0, 1].map(|a| list(m, a))) == seen
    }
}

pub fn p11(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 threads with 2 operations and 3 threads with 1, every schedule up to the preemption bound, results and final contents explained by some order of the operations");
    run.assume(SC);
    // the copy's total limit is lowered so that it can be reached
    vclock::reset();
    let probe = MemoryLocationStore::new();
    let cap = (0..200).position(|i| probe.upsert(b(&format!("sip:t{i}@h"), "sip:x@d", 100, 1)).is_err());
    run.note("total limit in the explored copy", cap.map_or("not lowered".to_string(), |c| c.to_string()));
    let mut progs = programs(OPS.len(), 2, 2);
    progs.extend(programs(OPS.len(), 3, 1));
    if run.thorough() {
        progs.extend(programs(5, 3, 2).into_iter().filter(|p| p.iter().flatten().any(|&o| o < 3)));
    }
    let bound = run.pick(2, 3);
    run.note("preemption bound", bound);
    let schedules = std::sync::atomic::AtomicU64::new(0);
    par_for(run, progs.len(), |pi| {
        for (setup, s) in SETUPS.iter().enumerate() {
            if s.4.is_some() && cap.is_none() || s.1 > 10 && !progs[pi].iter().flatten().any(|&o| matches!(OPS[o], Op::Up(0, _))) {
                continue;
            }
            let n = explore(run, &Store { setup, cap: cap.unwrap_or(usize::MAX) }, &OPS, &progs[pi], bound);
            schedules.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        }
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
    run.note("programs", progs.len());
}
