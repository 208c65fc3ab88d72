//! P08: interleavings of digest verification and nonce management.
use crate::lin::*;
use common::{par_for, vclock, Run};
use sip_auth::*;
use bytes::Bytes;
use sip_core::{Headers, Method, Request, RequestLine, Uri};
use std::time::Duration;

#[derive(Clone, Copy, Debug)]
enum Op {
    /// verify with the n-th issued nonce, this count, this request
    V(usize, u32, usize),
    Gen,
    Clean,
    Count,
    Valid(usize),
}
const OPS: [Op; 9] = [Op::V(0, 1, 0), Op::V(0, 1, 1), Op::V(0, 2, 0), Op::V(1, 1, 0), Op::Gen, Op::Clean, Op::Count, Op::Valid(0), Op::V(0, 3, 2)];
#[derive(Clone, Debug, PartialEq, Hash)]
enum R {
    Yes,
    No,
    Unit,
    N(usize),
}
#[derive(Clone, Debug)]
struct N {
    id: usize,
    nc: u32,
    req: usize,
    expired: bool,
}
struct St {
    mgr: NonceManager,
    values: Vec<String>,
}
/// (name, store limit, nonces issued before, of which expired)
const SETUPS: [(&str, usize, usize, usize); 5] = [("room", 100, 2, 0), ("full with two", 2, 2, 0), ("one below the limit of three", 3, 2, 0), ("full, one expired", 2, 2, 1), ("full with twelve", 12, 12, 0)];
struct Nonces(usize);
impl Sys for Nonces {
    type S = St;
    type O = Op;
    type R = R;
    type M = Vec<N>;
    fn setup_name(&self) -> String {
        SETUPS[self.0].0.into()
    }
    fn mk(&self) -> St {
        let (_, max, have, dead) = SETUPS[self.0];
        let mgr = NonceManager::new(Duration::from_millis(1000)).with_max_nonces(max).with_max_request_age(Duration::from_secs(100));
        let mut values = vec![];
        for i in 0..have {
            values.push(mgr.generate().value().to_string());
            vclock::advance_ms(if i + 1 == dead { 1001 } else { 1 });
        }
        St { mgr, values }
    }
    fn init(&self) -> Vec<N> {
        let (_, _, have, dead) = SETUPS[self.0];
        (0..have).map(|id| N { id, nc: 0, req: 9, expired: id < dead }).collect()
    }
    fn call(&self, s: &St, op: Op, _: u32) -> R {
        let y = |b: bool| if b { R::Yes } else { R::No };
        match op {
            Op::V(n, nc, req) => y(s.mgr.verify_with_nc(&s.values[n], nc, &[Method::Invite, Method::Bye, Method::Invite][req], "sip:h", [&b""[..], b"", b"x"][req])),
            Op::Gen => {
                let n = s.mgr.generate();
                y(!n.value().is_empty())
            }
            Op::Clean => {
                s.mgr.cleanup();
                R::Unit
            }
            Op::Count => R::N(s.mgr.count()),
            Op::Valid(n) => y(s.mgr.verify(&s.values[n])),
        }
    }
    fn apply(&self, m: &mut Vec<N>, op: Op, _: u32, r: &R) -> bool {
        let max = SETUPS[self.0].1;
        match op {
            Op::V(n, nc, req) => {
                let Some(e) = m.iter_mut().find(|e| e.id == n) else { return *r == R::No };
                let ok = !e.expired && (nc > e.nc || nc == e.nc && req == e.req);
                if ok {
                    e.nc = nc;
                    e.req = req;
                }
                *r == if ok { R::Yes } else { R::No }
            }
            Op::Gen => {
                if m.len() >= max {
                    m.retain(|e| !e.expired);
                    if m.len() >= max {
                        m.drain(..(m.len() + 1 - max).max(max / 10).min(m.len()));
                    }
                }
                m.push(N { id: 1000, nc: 0, req: 9, expired: false });
                *r == R::Yes
            }
            Op::Clean => {
                m.retain(|e| !e.expired);
                true
            }
            // counting adds up parts of the store one after the other, so it is
            // no snapshot; the limit itself is checked by `always`
            Op::Count => matches!(r, R::N(_)),
            Op::Valid(n) => *r == if m.iter().any(|e| e.id == n && !e.expired) { R::Yes } else { R::No },
        }
    }
    fn always(&self, s: &St) -> Option<String> {
        (s.mgr.count() > SETUPS[self.0].1).then(|| format!("{} nonces in a store limited to {}", s.mgr.count(), SETUPS[self.0].1))
    }
    fn observe(&self, s: &St) -> String {
        format!("{:?} {}", s.values.iter().map(|v| s.mgr.verify(v)).collect::<Vec<_>>(), s.mgr.count())
    }
    fn fin(&self, m: &Vec<N>, seen: &str) -> bool {
        let have = SETUPS[self.0].2;
        format!("{:?} {}", (0..have).map(|i| m.iter().any(|e| e.id == i && !e.expired)).collect::<Vec<_>>(), m.len()) == seen
    }
}

/// The same through whole requests and the authenticator.
struct Full;
struct FullSt {
    auth: DigestAuthenticator<MemoryCredentialStore>,
    values: Vec<String>,
}
const FULL: [Op; 7] = [Op::V(0, 1, 0), Op::V(0, 1, 1), Op::V(0, 2, 0), Op::V(1, 1, 0), Op::Clean, Op::Gen, Op::V(0, 2, 2)];
fn request(nonce: &str, nc: u32, variant: usize, opaque: &str) -> Request {
    let h = |s: String| format!("{:x}", md5::compute(s));
    let (m, body) = [(Method::Invite, ""), (Method::Bye, ""), (Method::Invite, "x")][variant].clone();
    let nc = format!("{nc:08x}");
    let resp = h(format!("{}:{nonce}:{nc}:c:auth:{}", h("u:r:p".into()), h(format!("{}:sip:h", m.as_str()))));
    let mut hs = Headers::new();
    hs.push("Authorization", &format!("Digest username=\"u\", realm=\"r\", nonce=\"{nonce}\", uri=\"sip:h\", response=\"{resp}\", algorithm=MD5, opaque=\"{opaque}\", qop=auth, nc={nc}, cnonce=\"c\"")).unwrap();
    Request::new(RequestLine::new(m, Uri::parse("sip:h").unwrap()), hs, Bytes::copy_from_slice(body.as_bytes())).unwrap()
}
impl Sys for Full {
    type S = FullSt;
    type O = Op;
    type R = R;
    type M = Vec<N>;
    fn setup_name(&self) -> String {
        "authenticator".into()
    }
    fn mk(&self) -> FullSt {
        let auth = DigestAuthenticator::new("r", MemoryCredentialStore::with(vec![Credentials::new("u", "p", "r")])).with_algorithm(DigestAlgorithm::Md5);
        let values = (0..2).map(|_| auth.nonce_manager().generate().value().to_string()).collect();
        FullSt { auth, values }
    }
    fn init(&self) -> Vec<N> {
        (0..2).map(|id| N { id, nc: 0, req: 9, expired: false }).collect()
    }
    fn call(&self, s: &FullSt, op: Op, _: u32) -> R {
        match op {
            Op::V(n, nc, v) => {
                let r = request(&s.values[n], nc, v, s.auth.opaque());
                if s.auth.verify(&r, r.headers()).unwrap_or(false) { R::Yes } else { R::No }
            }
            Op::Clean => {
                s.auth.nonce_manager().cleanup();
                R::Unit
            }
            _ => {
                s.auth.nonce_manager().generate();
                R::Yes
            }
        }
    }
    fn apply(&self, m: &mut Vec<N>, op: Op, mark: u32, r: &R) -> bool {
        match op {
            Op::V(..) => Nonces(0).apply(m, op, mark, r),
            _ => true,
        }
    }
    fn observe(&self, s: &FullSt) -> String {
        format!("{:?}", s.values.iter().map(|v| s.auth.nonce_manager().verify(v)).collect::<Vec<_>>())
    }
    fn fin(&self, _: &Vec<N>, seen: &str) -> bool {
        seen == "[true, true]"
    }
}

pub fn p08(run: &Run) {
    run.note("rule (interleavings)", "programs of 2 threads with 2 operations and 3 threads with 1 over one nonce store, every schedule up to the preemption bound, results and final store explained by some order");
    run.assume(SC);
    let mut progs = programs(OPS.len(), 2, 2);
    progs.extend(programs(OPS.len(), 3, 1));
    if run.thorough() {
        progs.extend(programs(OPS.len(), 4, 1));
        progs.extend(programs(6, 3, 2));
    }
    let bound = run.pick(2, 3);
    run.note("preemption bound", bound);
    let schedules = std::sync::atomic::AtomicU64::new(0);
    par_for(run, progs.len(), |pi| {
        for i in 0..SETUPS.len() {
            if SETUPS[i].2 > 5 && !progs[pi].iter().flatten().any(|&o| matches!(OPS[o], Op::Gen)) {
                continue;
            }
            schedules.fetch_add(explore(run, &Nonces(i), &OPS, &progs[pi], bound), std::sync::atomic::Ordering::Relaxed);
        }
    });
    let mut full = programs(FULL.len(), 2, 2);
    full.extend(programs(FULL.len(), 3, 1));
    par_for(run, full.len(), |pi| {
        schedules.fetch_add(explore(run, &Full, &FULL, &full[pi], bound), std::sync::atomic::Ordering::Relaxed);
    });
    run.note("schedules", schedules.load(std::sync::atomic::Ordering::Relaxed));
    run.note("programs", progs.len());
}
