//! Histories of concurrent operations and their linearizability.
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct Rec<O, R> {
    pub thread: usize,
    pub op: O,
    pub inv: u64,
    pub resp: u64,
    pub res: R,
}
pub struct Hist<O, R>(pub RefCell<Vec<Rec<O, R>>>);
impl<O, R> Hist<O, R> {
    pub fn new() -> Self {
        Hist(RefCell::new(vec![]))
    }
}
pub const SC: &str = "memory accesses are sequentially consistent; locks, atomics and dashmap are those of mc/conc (dashmap 5.5.3, two shards, over the controlled scheduler); /repo's source is used with only those names replaced";

/// Is there an order of the operations, keeping every one that ended before
/// another began in front of it, in which `apply` accepts each result and `fin`
/// the final model?
pub fn linearizable<M: Clone, O, R>(init: &M, h: &[Rec<O, R>], apply: &dyn Fn(&mut M, &O, &R) -> bool, fin: &dyn Fn(&M) -> bool) -> bool {
    fn go<M: Clone, O, R>(m: &M, h: &[Rec<O, R>], done: u32, apply: &dyn Fn(&mut M, &O, &R) -> bool, fin: &dyn Fn(&M) -> bool) -> bool {
        if done == (1u32 << h.len()) - 1 {
            return fin(m);
        }
        for i in 0..h.len() {
            if done >> i & 1 == 1 {
                continue;
            }
            // the same thread's operations, and those that ended earlier, come first
            let blocked = (0..h.len()).any(|j| j != i && done >> j & 1 == 0 && ((h[j].resp < h[i].inv) || (h[j].thread == h[i].thread && h[j].inv < h[i].inv)));
            if blocked {
                continue;
            }
            let mut n = m.clone();
            if apply(&mut n, &h[i].op, &h[i].res) && go(&n, h, done | 1 << i, apply, fin) {
                return true;
            }
        }
        false
    }
    go(init, h, 0, apply, fin)
}

/// Every program of `threads` threads with `len` operations each over
/// 0..alpha, threads taken as a multiset.
pub fn programs(alpha: usize, threads: usize, len: usize) -> Vec<Vec<Vec<usize>>> {
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..len {
        seqs = seqs.into_iter().flat_map(|s| (0..alpha).map(move |o| { let mut s = s.clone(); s.push(o); s })).collect();
    }
    let mut out = vec![];
    fn rec(seqs: &[Vec<usize>], from: usize, left: usize, cur: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..seqs.len() {
            cur.push(seqs[i].clone());
            rec(seqs, i, left - 1, cur, out);
            cur.pop();
        }
    }
    rec(&seqs, 0, threads, &mut vec![], &mut out);
    out
}

/// A concurrent object with a sequential model.
pub trait Sys: Sync {
    type S: 'static;
    type O: Copy + std::fmt::Debug + 'static;
    type R: Clone + std::fmt::Debug + std::hash::Hash + 'static;
    type M: Clone;
    fn setup_name(&self) -> String;
    fn mk(&self) -> Self::S;
    fn call(&self, s: &Self::S, op: Self::O, mark: u32) -> Self::R;
    fn init(&self) -> Self::M;
    /// Take the step; false if the result is not one the model allows.
    fn apply(&self, m: &mut Self::M, op: Self::O, mark: u32, r: &Self::R) -> bool;
    /// Everything observable at the end (taken once per execution), and whether the model agrees.
    fn observe(&self, s: &Self::S) -> String;
    fn fin(&self, m: &Self::M, seen: &str) -> bool;
    /// The steps an operation consists of, if it need not happen at one moment.
    fn parts(&self, op: Self::O) -> Vec<Self::O> {
        vec![op]
    }
    /// Must hold in every final state, whatever the order (None: fine).
    fn always(&self, _: &Self::S) -> Option<String> {
        None
    }
}
struct W<S, O, R> {
    s: S,
    h: Hist<(O, u32), R>,
    panics: RefCell<Vec<String>>,
}
/// Explore one program over `sys`, with the keys of a map in one shard and apart.
pub fn explore<T: Sys>(run: &common::Run, sys: &T, ops: &[T::O], prog: &[Vec<usize>], bound: usize) -> u64 {
    let key = |s: &str| format!("{s}: {}; {}", sys.setup_name(), prog.iter().map(|t| t.iter().map(|&o| format!("{:?}", ops[o])).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | "));
    let mut total = 0;
    for coll in [false, true] {
        mcrt::collide(coll);
        common::vclock::reset();
        let mk = || {
            common::vclock::reset();
            W { s: sys.mk(), h: Hist::new(), panics: Default::default() }
        };
        let bodies: Vec<Box<dyn Fn(&W<T::S, T::O, T::R>) + '_>> = prog
            .iter()
            .enumerate()
            .map(|(t, l)| {
                Box::new(move |w: &W<T::S, T::O, T::R>| {
                    for (k, &o) in l.iter().enumerate() {
                        let mark = (t * 10 + k + 1) as u32;
                        mcrt::yield_point();
                        let inv = mcrt::now();
                        match common::quiet(|| sys.call(&w.s, ops[o], mark)) {
                            Ok(res) => {
                                let resp = mcrt::now();
                                for p in sys.parts(ops[o]) {
                                    w.h.0.borrow_mut().push(Rec { thread: t, op: (p, mark), inv, resp, res: res.clone() });
                                }
                            }
                            Err(e) => {
                                w.panics.borrow_mut().push(e);
                                return;
                            }
                        }
                    }
                }) as Box<dyn Fn(&W<T::S, T::O, T::R>)>
            })
            .collect();
        let refs: Vec<&dyn Fn(&W<T::S, T::O, T::R>)> = bodies.iter().map(|b| &**b).collect();
        let init = sys.init();
        let st = mcrt::explore(bound, 5000, &mk, &refs, &mut |w, e| {
            run.step(e.schedule.len() as u64);
            run.trace();
            let sch = || format!("schedule {:?}, shards {}", e.schedule, if coll { "shared" } else { "apart" });
            if e.end != mcrt::End::Done {
                run.violation(key("stuck"), format!("{:?}; {}", e.end, sch()));
                return false;
            }
            if let Some(p) = w.panics.borrow().first() {
                run.violation(key("panic"), format!("{p}; {}", sch()));
                return false;
            }
            let h = w.h.0.borrow();
            if let Some(bad) = sys.always(&w.s) {
                run.violation(key("broken"), format!("{bad}; {}\nhistory {h:?}", sch()));
                return false;
            }
            let seen = sys.observe(&w.s);
            run.state(&(sys.setup_name(), prog, h.iter().map(|r| (r.thread, r.res.clone())).collect::<Vec<_>>(), &seen));
            let ok = linearizable(&init, &h, &|m: &mut T::M, o: &(T::O, u32), r: &T::R| sys.apply(m, o.0, o.1, r), &|m: &T::M| sys.fin(m, &seen));
            if !ok {
                run.violation(key("no order explains it"), format!("{}\nhistory {h:?}\nfinal {seen}", sch()));
            }
            ok
        });
        total += st.schedules;
        run.sample(|| format!("{} ({} schedules)", key("program"), st.schedules));
    }
    total
}
