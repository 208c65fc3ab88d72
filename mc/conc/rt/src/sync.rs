//! `std::sync` with the primitives whose order matters replaced.
pub use std::sync::*;

pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, crate::lock::RawMutex, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, crate::lock::RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, crate::lock::RawRwLock, T>;

#[derive(Default)]
pub struct Mutex<T: ?Sized>(lock_api::Mutex<crate::lock::RawMutex, T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(lock_api::Mutex::const_new(<crate::lock::RawMutex as lock_api::RawMutex>::INIT, t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.0.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        Ok(self.0.lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        self.0.try_lock().ok_or(TryLockError::WouldBlock)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.0.get_mut())
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
#[derive(Default)]
pub struct RwLock<T: ?Sized>(lock_api::RwLock<crate::lock::RawRwLock, T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(lock_api::RwLock::const_new(<crate::lock::RawRwLock as lock_api::RawRwLock>::INIT, t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.0.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        Ok(self.0.read())
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        Ok(self.0.write())
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}

pub mod atomic {
    //! Atomics, each access a yield point (sequentially consistent).
    use crate::yield_point as y;
    pub use std::sync::atomic::{compiler_fence, fence, AtomicPtr, Ordering};
    use std::sync::atomic::Ordering::SeqCst;
    macro_rules! int {
        ($n:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $n(std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, _: Ordering) -> $t {
                    y();
                    self.0.load(SeqCst)
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    y();
                    self.0.store(v, SeqCst)
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    y();
                    self.0.swap(v, SeqCst)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    y();
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> {
                    y();
                    self.0.compare_exchange(a, b, SeqCst, SeqCst)
                }
                pub fn fetch_update(&self, _: Ordering, _: Ordering, f: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                    y();
                    self.0.fetch_update(SeqCst, SeqCst, f)
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
            }
            impl std::fmt::Debug for $n {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    macro_rules! arith {
        ($n:ident, $t:ty, $($m:ident)*) => {
            impl $n {
                $(pub fn $m(&self, v: $t, _: Ordering) -> $t {
                    y();
                    self.0.$m(v, SeqCst)
                })*
            }
        };
    }
    int!(AtomicU64, u64);
    int!(AtomicU32, u32);
    int!(AtomicU16, u16);
    int!(AtomicU8, u8);
    int!(AtomicUsize, usize);
    int!(AtomicI64, i64);
    int!(AtomicI32, i32);
    int!(AtomicIsize, isize);
    int!(AtomicBool, bool);
    arith!(AtomicU64, u64, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicU32, u32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicU16, u16, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicU8, u8, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicUsize, usize, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicI64, i64, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicI32, i32, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicIsize, isize, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min);
    arith!(AtomicBool, bool, fetch_and fetch_or fetch_xor);
}
