//! Controlled scheduler: runs a small concurrent program under every schedule
//! with at most `bound` preemptions. The threads of the program are coroutines
//! of one OS thread; they hand over control only before a synchronisation
//! operation (lock acquisition, atomic access, operation boundary), which is
//! enough because everything between two such points is local to the thread.
//! Outside an exploration the locks here are ordinary spin locks.
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
pub mod lock;
pub mod parking_lot;
pub mod sync;

/// What a suspended thread waits for: nothing, or a condition.
pub enum Wait {
    Ready,
    Until(*const dyn Fn() -> bool),
}
type Co = Coroutine<(), Wait, (), DefaultStack>;

thread_local! {
    static CUR: Cell<*const Yielder<(), Wait>> = const { Cell::new(std::ptr::null()) };
    static NOW: Cell<u64> = const { Cell::new(0) };
}

pub fn active() -> bool {
    CUR.with(|c| !c.get().is_null())
}
/// A point where any other thread may run.
pub fn yield_point() {
    let y = CUR.with(|c| c.get());
    if !y.is_null() {
        unsafe { &*y }.suspend(Wait::Ready);
    }
}
/// Wait until `f` holds.
pub fn wait_until(f: &dyn Fn() -> bool) {
    let y = CUR.with(|c| c.get());
    if y.is_null() {
        while !f() {
            std::thread::yield_now();
        }
        return;
    }
    let p: *const (dyn Fn() -> bool + '_) = f;
    let p: *const (dyn Fn() -> bool + 'static) = unsafe { std::mem::transmute(p) };
    unsafe { &*y }.suspend(Wait::Until(p));
}
/// Logical time: number of scheduling steps so far.
pub fn now() -> u64 {
    NOW.with(|n| n.get())
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Done,
    /// these threads wait for each other
    Deadlock(Vec<usize>),
    /// more than the allowed number of steps
    Endless,
}
pub struct Exec<'a> {
    pub end: End,
    pub schedule: &'a [usize],
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub schedules: u64,
    pub steps: u64,
    pub choice_points: u64,
    pub longest: usize,
}
struct Point {
    enabled: Vec<usize>,
    default: usize,
    chosen: usize,
    /// preemptions before this point
    pre: usize,
    /// the running thread could go on: choosing another is a preemption
    cont: bool,
}

/// Explore all schedules of `threads` over a fresh state from `mk`. `check`
/// sees the state after each execution; returning false ends the exploration.
pub fn explore<S: 'static>(bound: usize, max_steps: usize, mk: &dyn Fn() -> S, threads: &[&dyn Fn(&S)], check: &mut dyn FnMut(&S, &Exec) -> bool) -> Stats {
    let mut st = Stats::default();
    let mut prefix: Vec<usize> = Vec::new();
    let pool: Rc<RefCell<Vec<DefaultStack>>> = Rc::new(RefCell::new(Vec::new()));
    loop {
        SEEN.with(|m| m.borrow_mut().clear());
        let state = Rc::new(mk());
        NOW.with(|n| n.set(0));
        let n = threads.len();
        let mut cos: Vec<Option<Co>> = Vec::new();
        let mut waits: Vec<Option<Wait>> = Vec::new();
        let slots: Rc<Vec<Cell<*const Yielder<(), Wait>>>> = Rc::new((0..n).map(|_| Cell::new(std::ptr::null())).collect());
        for (i, t) in threads.iter().enumerate() {
            let s = state.clone();
            let f: *const dyn Fn(&S) = *t;
            let f: *const (dyn Fn(&S) + 'static) = unsafe { std::mem::transmute(f) };
            let sl = slots.clone();
            let stack = pool.borrow_mut().pop().unwrap_or_else(|| DefaultStack::new(512 << 10).unwrap());
            cos.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), Wait>, ()| {
                sl[i].set(y as *const _);
                CUR.with(|c| c.set(y as *const _));
                unsafe { (*f)(&s) };
            })));
            waits.push(Some(Wait::Ready));
        }
        let mut points: Vec<Point> = Vec::new();
        let (mut cur, mut pre) = (usize::MAX, 0usize);
        let end = loop {
            let enabled: Vec<usize> = (0..n)
                .filter(|&i| match &waits[i] {
                    None => false,
                    Some(Wait::Ready) => true,
                    Some(Wait::Until(f)) => unsafe { (**f)() },
                })
                .collect();
            if enabled.is_empty() {
                let left: Vec<usize> = (0..n).filter(|&i| waits[i].is_some()).collect();
                break if left.is_empty() { End::Done } else { End::Deadlock(left) };
            }
            if points.len() >= max_steps {
                break End::Endless;
            }
            let cont = cur != usize::MAX && enabled.contains(&cur);
            let default = if cont { cur } else { enabled[0] };
            let k = points.len();
            let chosen = if k < prefix.len() { prefix[k] } else { default };
            assert!(enabled.contains(&chosen), "the program is not deterministic under the scheduler");
            points.push(Point { enabled, default, chosen, pre, cont });
            if cont && chosen != cur {
                pre += 1;
            }
            cur = chosen;
            NOW.with(|n| n.set(n.get() + 1));
            let mut co = cos[cur].take().unwrap();
            CUR.with(|c| c.set(slots[cur].get()));
            let r = co.resume(());
            CUR.with(|c| c.set(std::ptr::null()));
            match r {
                CoroutineResult::Yield(w) => {
                    waits[cur] = Some(w);
                    cos[cur] = Some(co);
                }
                CoroutineResult::Return(()) => {
                    waits[cur] = None;
                    pool.borrow_mut().push(co.into_stack());
                }
            }
        };
        let schedule: Vec<usize> = points.iter().map(|p| p.chosen).collect();
        st.schedules += 1;
        st.steps += points.len() as u64;
        st.longest = st.longest.max(points.len());
        let go = check(&state, &Exec { end: end.clone(), schedule: &schedule });
        if end != End::Done {
            // the suspended threads hold borrows of the state: leave both alone
            cos.into_iter().for_each(std::mem::forget);
            std::mem::forget(state);
            return st;
        }
        if !go {
            return st;
        }
        // next schedule: last point with an alternative left, tried in the order default, then ascending
        let mut next = None;
        for k in (0..points.len()).rev() {
            let p = &points[k];
            let mut order: Vec<usize> = vec![p.default];
            order.extend(p.enabled.iter().copied().filter(|&t| t != p.default));
            let at = order.iter().position(|&t| t == p.chosen).unwrap();
            if at + 1 < order.len() && (!p.cont || p.pre < bound) {
                next = Some((k, order[at + 1]));
                break;
            }
        }
        match next {
            None => {
                return st;
            }
            Some((k, t)) => {
                prefix = schedule[..k].to_vec();
                prefix.push(t);
            }
        }
        st.choice_points += 1;
    }
}

thread_local! { static SEEN: RefCell<std::collections::HashMap<u64, u64>> = RefCell::new(Default::default()); }
thread_local! { static COLLIDE: Cell<bool> = const { Cell::new(false) }; }
/// Whether all keys fall into one shard of a map (as any two may).
pub fn collide(on: bool) {
    COLLIDE.with(|c| c.set(on));
}
/// Deterministic replacement for the standard `RandomState`.
#[derive(Clone, Default, Debug)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> Self {
        RandomState
    }
}
pub struct Hash64(u64);
impl std::hash::Hasher for Hash64 {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        // number the keys in the order they appear: the same in every replay,
        // even where a key is random
        let n = SEEN.with(|m| {
            let mut m = m.borrow_mut();
            let next = m.len() as u64;
            *m.entry(self.0).or_insert(next)
        });
        let h = (n + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) & !(1 << 56);
        if COLLIDE.with(|c| c.get()) {
            h
        } else {
            h | (n & 1) << 56
        }
    }
}
impl std::hash::BuildHasher for RandomState {
    type Hasher = Hash64;
    fn build_hasher(&self) -> Hash64 {
        Hash64(0xcbf2_9ce4_8422_2325)
    }
}
