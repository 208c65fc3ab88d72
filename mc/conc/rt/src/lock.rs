//! Raw locks for lock_api.
use crate::{wait_until, yield_point};
use std::sync::atomic::{AtomicUsize, Ordering::*};

const WRITER: usize = usize::MAX;

pub struct RawRwLock(AtomicUsize);
impl RawRwLock {
    fn try_w(&self) -> bool {
        self.0.compare_exchange(0, WRITER, SeqCst, SeqCst).is_ok()
    }
    fn try_r(&self) -> bool {
        self.0.fetch_update(SeqCst, SeqCst, |s| (s != WRITER).then(|| s + 1)).is_ok()
    }
}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(AtomicUsize::new(0));
    type GuardMarker = lock_api::GuardSend;
    fn lock_shared(&self) {
        yield_point();
        while !self.try_r() {
            wait_until(&|| self.0.load(SeqCst) != WRITER);
        }
    }
    fn try_lock_shared(&self) -> bool {
        yield_point();
        self.try_r()
    }
    unsafe fn unlock_shared(&self) {
        self.0.fetch_sub(1, SeqCst);
    }
    fn lock_exclusive(&self) {
        yield_point();
        while !self.try_w() {
            wait_until(&|| self.0.load(SeqCst) == 0);
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        yield_point();
        self.try_w()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.store(0, SeqCst);
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, SeqCst);
    }
}

pub struct RawMutex(AtomicUsize);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(AtomicUsize::new(0));
    type GuardMarker = lock_api::GuardSend;
    fn lock(&self) {
        yield_point();
        while self.0.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
            wait_until(&|| self.0.load(SeqCst) == 0);
        }
    }
    fn try_lock(&self) -> bool {
        yield_point();
        self.0.compare_exchange(0, 1, SeqCst, SeqCst).is_ok()
    }
    unsafe fn unlock(&self) {
        self.0.store(0, SeqCst);
    }
}
