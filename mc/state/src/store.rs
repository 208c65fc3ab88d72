//! P11: the in-memory location store against a reference, for every sequence
//! of operations up to a depth (its interleavings: mc/conc).
use crate::auth::block;
use common::{product, sequences, vclock, Run};
use sip_registrar::*;
use smol_str::SmolStr;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct E {
    pub aor: String,
    pub contact: String,
    pub until: u64, // ms
    pub mark: u32,
}
#[derive(Clone, Default)]
pub struct Model(pub Vec<E>);
impl Model {
    pub fn live(&self, aor: &str, now: u64) -> Vec<E> {
        let mut v: Vec<E> = self.0.iter().filter(|e| e.aor == aor && e.until > now).cloned().collect();
        v.sort();
        v
    }
    pub fn upsert(&mut self, aor: &str, contact: &str, secs: u64, mark: u32, now: u64, per_aor: usize, total: usize) -> bool {
        let other = |e: &&E| e.until > now && !(e.aor == aor && e.contact == contact);
        if self.0.iter().filter(other).filter(|e| e.aor == aor).count() >= per_aor || self.0.iter().filter(other).count() >= total {
            return false;
        }
        self.0.retain(|e| !(e.aor == aor && e.contact == contact));
        self.0.push(E { aor: aor.into(), contact: contact.into(), until: now + secs * 1000, mark });
        true
    }
}
pub fn binding(aor: &str, contact: &str, secs: u64, mark: u32) -> Binding {
    Binding::new(aor.into(), contact.into(), Duration::from_secs(secs))
        .unwrap()
        .with_call_id(SmolStr::new(format!("c{mark}")))
        .unwrap()
        .with_cseq(mark)
        .unwrap()
        .with_q_value((mark % 5) as f32 / 4.0)
        .unwrap()
        .with_user_agent(SmolStr::new(format!("u{mark}")))
        .unwrap()
        .with_flow_token(SmolStr::new(format!("f{mark}")))
        .with_instance_id(SmolStr::new(format!("i{mark}")))
        .with_reg_id(mark)
}
fn now_ms() -> u64 {
    vclock::now() / 1_000_000
}
/// What a lookup returned, as model entries; Err if a field is not the stored one.
pub fn seen(aor: &str, l: &[Binding], now: u64) -> Result<Vec<E>, String> {
    let mut v = vec![];
    for b in l {
        let m = b.cseq();
        let w = binding(aor, b.contact(), 60, m);
        let same = (b.aor(), b.call_id(), b.q_value(), b.user_agent(), b.flow_token(), b.instance_id(), b.reg_id(), b.path().is_none()) == (w.aor(), w.call_id(), w.q_value(), w.user_agent(), w.flow_token(), w.instance_id(), w.reg_id(), true);
        if !same {
            return Err(format!("mixed fields: {b:?}"));
        }
        v.push(E { aor: aor.into(), contact: b.contact().into(), until: now + b.expires().as_millis() as u64, mark: m });
    }
    v.sort();
    Ok(v)
}

const AORS: [&str; 2] = ["sip:a@h", "sip:a@h:1"];
const CONTACTS: [&str; 3] = ["sip:x@d", "sip:x@d;a=1", "sip:X@d"];
#[derive(Clone, Copy, Debug)]
enum Op {
    Up(usize, usize, u64),
    Del(usize, usize),
    DelAll(usize),
    Look(usize),
    Clean,
    Sleep(u64),
}

/// Every operation sequence, starting with `pre` other bindings of the first
/// address of which `dead` have expired. After each operation the whole store
/// is compared; a third of the operations use the asynchronous interface.
fn histories(run: &Run, pre: usize, dead: usize, depth: usize, ops: &[Op], probe: bool) {
    sequences(run, ops.len(), depth, |seq| {
        vclock::reset();
        let st = MemoryLocationStore::new();
        let mut m = Model::default();
        for i in 0..pre {
            let c = format!("sip:p{i}@d");
            let secs = if i < dead { 60 } else { 80_000 };
            let ok = LocationStore::upsert(&st, binding(AORS[0], &c, secs, 900)).is_ok();
            let want = m.upsert(AORS[0], &c, secs, 900, now_ms(), 20, 100_000);
            run.check(ok == want, || format!("store fill {pre}"), || format!("binding {i}: accepted {ok}, expected {want}"));
        }
        vclock::advance_ms(60_000);
        let key = |k: usize, s: &str| format!("store {s} pre {pre} dead {dead} probe {probe} ops {:?}", seq[..=k].iter().map(|&i| ops[i]).collect::<Vec<_>>());
        let n = seq.len();
        for (k, &o) in seq.iter().enumerate() {
            let sync = k % 3 != 2;
            let mark = k as u32 + 1;
            let now = now_ms();
            match ops[o] {
                Op::Up(a, c, secs) => {
                    let b = binding(AORS[a], CONTACTS[c], secs, mark);
                    let ok = if sync { LocationStore::upsert(&st, b).is_ok() } else { block(AsyncLocationStore::upsert(&st, b)).is_ok() };
                    let want = m.upsert(AORS[a], CONTACTS[c], secs, mark, now, 20, 100_000);
                    run.check(ok == want, || key(k, "upsert"), || format!("accepted {ok}, expected {want}"));
                }
                Op::Del(a, c) => {
                    let ok = if sync { LocationStore::remove(&st, AORS[a], CONTACTS[c]).is_ok() } else { block(AsyncLocationStore::remove(&st, AORS[a], CONTACTS[c])).is_ok() };
                    m.0.retain(|e| !(e.aor == AORS[a] && e.contact == CONTACTS[c]));
                    run.check(ok, || key(k, "remove"), || "refused".into());
                }
                Op::DelAll(a) => {
                    let ok = if sync { LocationStore::remove_all(&st, AORS[a]).is_ok() } else { block(AsyncLocationStore::remove_all(&st, AORS[a])).is_ok() };
                    m.0.retain(|e| e.aor != AORS[a]);
                    run.check(ok, || key(k, "remove_all"), || "refused".into());
                }
                Op::Look(a) => {
                    let l = if sync { LocationStore::lookup(&st, AORS[a]) } else { block(AsyncLocationStore::lookup(&st, AORS[a])) };
                    let want = m.live(AORS[a], now);
                    let got = l.map_err(|e| e.to_string()).and_then(|l| seen(AORS[a], &l, now));
                    run.check(got.as_ref() == Ok(&want), || key(k, "lookup"), || format!("expected {want:?}\ngot      {got:?}"));
                }
                Op::Clean => {
                    // an expired binding may already be gone, so the count is at most this
                    let most = m.0.iter().filter(|e| e.until <= now).count();
                    let got = if sync { LocationStore::cleanup_expired(&st) } else { block(AsyncLocationStore::cleanup_expired(&st)) };
                    run.check(got.as_ref().is_ok_and(|g| *g <= most), || key(k, "cleanup"), || format!("{got:?} removed, {most} expired"));
                    m.0.retain(|e| e.until > now);
                    let again = LocationStore::cleanup_expired(&st);
                    run.check(again.as_ref().is_ok_and(|g| *g == 0), || key(k, "cleanup again"), || format!("{again:?}"));
                }
                Op::Sleep(ms) => vclock::advance_ms(ms),
            }
            run.step(1);
            // look only after the last operation unless `probe`: a lookup itself drops expired bindings
            if probe || k + 1 == n {
                let now = now_ms();
                for a in AORS {
                    let want = m.live(a, now);
                    let got = LocationStore::lookup(&st, a).map_err(|e| e.to_string()).and_then(|l| seen(a, &l, now));
                    run.check(got.as_ref() == Ok(&want), || key(k, "contents"), || format!("{a}: expected {want:?}\ngot      {got:?}"));
                }
                let mut s: Vec<(String, String, u64, u32)> = m.0.iter().filter(|e| e.until > now).map(|e| (e.aor.clone(), e.contact.clone(), e.until - now, e.mark)).collect();
                s.sort();
                run.state(&(pre, s));
            }
        }
        run.trace();
        run.sample(|| key(n - 1, "history"));
    });
}

/// The total limit, at its real size.
fn total(run: &Run) {
    vclock::reset();
    let st = MemoryLocationStore::new();
    let up = |aor: &str, c: &str, secs| st.upsert(binding(aor, c, secs, 1)).is_ok();
    // few addresses, the most bindings each
    let name = |i: usize| (format!("sip:u{}@h", i / 20), format!("sip:c{}@d", i % 20));
    let mut bad = None;
    for i in 0..100_000 {
        let (a, c) = name(i);
        if !up(&a, &c, if i < 3 { 60 } else { 1000 }) {
            bad = Some(i);
            break;
        }
    }
    run.check(bad.is_none(), || "total fill".into(), || format!("binding {bad:?} refused below the limit"));
    run.step(100_000);
    run.trace();
    let expect = |what: &str, got: bool, want: bool| {
        run.step(1);
        run.check(got == want, || format!("total {what}"), || format!("accepted {got}, expected {want}"));
    };
    expect("one more", up("sip:new@h", "sip:n@d", 1000), false);
    let (a, c) = name(50_000);
    expect("refresh at the limit", up(&a, &c, 1000), true);
    expect("one more after a refresh", up("sip:new@h", "sip:n@d", 1000), false);
    st.remove(&a, &c).unwrap();
    expect("after a removal", up("sip:new@h", "sip:n@d", 1000), true);
    expect("back at the limit", up("sip:new@h", "sip:m@d", 1000), false);
    vclock::advance_ms(60_000);
    for i in 0..3 {
        expect("after an expiry", up("sip:new@h", &format!("sip:e{i}@d"), 1000), true);
    }
    expect("at the limit again", up("sip:new@h", "sip:e9@d", 1000), false);
}

/// A cleanup reports how many bindings it dropped.
fn counts(run: &Run) {
    product(run, &[3, 3, 3, 3, 2], |ix| {
        vclock::reset();
        run.step(1);
        run.trace();
        let st = MemoryLocationStore::new();
        // dead and live bindings of two addresses
        for (a, dead, live) in [(0, ix[0], ix[1]), (1, ix[2], ix[3])] {
            for i in 0..dead + live {
                st.upsert(binding(AORS[a], &format!("sip:{i}@d"), if i < dead { 60 } else { 61 }, 1)).unwrap();
            }
        }
        vclock::advance_ms(60_000);
        let got = if ix[4] == 0 { LocationStore::cleanup_expired(&st) } else { block(AsyncLocationStore::cleanup_expired(&st)) }.unwrap();
        run.check(got == ix[0] + ix[2], || format!("store cleanup count {ix:?}"), || format!("reported {got}, {} had expired", ix[0] + ix[2]));
        run.state(&ix.to_vec());
    });
}

/// The two adapters give the answers of the store behind them.
fn adapters(run: &Run) {
    vclock::real();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
    // operations without time: the adapters run on other threads
    let ops: Vec<Op> = vec![Op::Up(0, 0, 100), Op::Up(0, 1, 200), Op::Up(1, 0, 300), Op::Del(0, 0), Op::Del(1, 1), Op::DelAll(0), Op::Clean, Op::Look(0)];
    let depth = run.pick(3, 4);
    product(run, &vec![ops.len(); depth], |seq| {
        let s2a = SyncToAsyncAdapter::new(MemoryLocationStore::new());
        let a2s = AsyncToSyncAdapter::new(MemoryLocationStore::new());
        let plain = MemoryLocationStore::new();
        let _g = rt.enter();
        let key = |s: &str| format!("adapter {s} ops {:?}", seq.iter().map(|&i| ops[i]).collect::<Vec<_>>());
        for (k, &o) in seq.iter().enumerate() {
            run.step(1);
            let mark = k as u32 + 1;
            let f = |r: anyhow::Result<Vec<Binding>>| {
                r.map(|l| {
                    let mut v: Vec<_> = l.iter().map(|b| (b.aor().to_string(), b.contact().to_string(), b.cseq(), b.call_id().to_string(), (b.expires().as_secs() + 50) / 100)).collect();
                    v.sort();
                    v
                })
                .map_err(|e| e.to_string())
            };
            let n = |r: anyhow::Result<()>| f(r.map(|()| vec![]));
            let (x, y, z) = match ops[o] {
                Op::Up(a, c, secs) => {
                    let b = || binding(AORS[a], CONTACTS[c], secs, mark);
                    (n(LocationStore::upsert(&plain, b())), n(rt.block_on(s2a.upsert(b()))), n(LocationStore::upsert(&a2s, b())))
                }
                Op::Del(a, c) => (n(LocationStore::remove(&plain, AORS[a], CONTACTS[c])), n(rt.block_on(s2a.remove(AORS[a], CONTACTS[c]))), n(LocationStore::remove(&a2s, AORS[a], CONTACTS[c]))),
                Op::DelAll(a) => (n(LocationStore::remove_all(&plain, AORS[a])), n(rt.block_on(s2a.remove_all(AORS[a]))), n(LocationStore::remove_all(&a2s, AORS[a]))),
                Op::Clean => {
                    let c = |r: anyhow::Result<usize>| r.map(|n| vec![(n.to_string(), String::new(), 0, String::new(), 0)]).map_err(|e| e.to_string());
                    (c(LocationStore::cleanup_expired(&plain)), c(rt.block_on(s2a.cleanup_expired())), c(LocationStore::cleanup_expired(&a2s)))
                }
                _ => (Ok(vec![]), Ok(vec![]), Ok(vec![])),
            };
            run.check(x == y && x == z, || key("answer"), || format!("store {x:?}\nsync to async {y:?}\nasync to sync {z:?}"));
            for a in AORS {
                let (x, y, z) = (f(LocationStore::lookup(&plain, a)), f(rt.block_on(s2a.lookup(a))), f(LocationStore::lookup(&a2s, a)));
                run.check(x == y && x == z, || key("lookup"), || format!("store {x:?}\nsync to async {y:?}\nasync to sync {z:?}"));
            }
        }
        run.trace();
    });
}

pub fn p11(run: &Run) {
    run.note("rule", "every operation sequence up to the depth over two addresses, three contacts and clock steps, store compared with a reference; 20 bindings per address, 100000 in all at real size; both adapters");
    let mut ops = vec![];
    for a in 0..2 {
        for c in 0..2 {
            ops.push(Op::Up(a, c, 60));
        }
        ops.push(Op::DelAll(a));
    }
    ops.extend([Op::Up(0, 0, 120), Op::Up(0, 2, 60), Op::Del(0, 0), Op::Del(0, 2), Op::Del(1, 1), Op::Look(0), Op::Clean, Op::Sleep(59_999), Op::Sleep(1), Op::Sleep(60_000)]);
    std::thread::scope(|s| {
        s.spawn(|| total(run));
        let d = run.pick(5, 6);
        histories(run, 0, 0, d, &ops, true);
        histories(run, 0, 0, d, &ops, false);
        // around the limit for one address
        let near = [Op::Up(0, 0, 60), Op::Up(0, 1, 60), Op::Up(1, 0, 60), Op::Del(0, 0), Op::DelAll(0), Op::Look(0), Op::Clean, Op::Sleep(60_000)];
        for (pre, dead) in [(18, 0), (19, 0), (20, 0), (20, 1), (20, 2), (19, 1), (20, 20), (21, 1)] {
            histories(run, pre, dead, d, &near, false);
        }
    });
    counts(run);
    adapters(run);
}
