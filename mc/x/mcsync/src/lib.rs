//! tokio::sync with a scheduling point before every lock, so that an executor
//! which polls tasks one at a time can explore what threads running them in
//! parallel could do. Without `set(true)` nothing differs from tokio.
pub use tokio::sync::*;
use std::cell::Cell;
use std::future::poll_fn;
use std::task::Poll;

thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }
/// Turn the scheduling points of this thread on or off.
pub fn set(on: bool) {
    ON.with(|x| x.set(on));
}
pub async fn step() {
    let mut first = ON.with(|x| x.get());
    poll_fn(|c| {
        if std::mem::take(&mut first) {
            c.waker().wake_by_ref();
            return Poll::Pending;
        }
        Poll::Ready(())
    })
    .await
}

#[derive(Debug, Default)]
pub struct RwLock<T>(tokio::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub fn new(t: T) -> Self {
        RwLock(tokio::sync::RwLock::new(t))
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        step().await;
        self.0.read().await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        step().await;
        self.0.write().await
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        self.0.try_read()
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        self.0.try_write()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}

#[derive(Debug, Default)]
pub struct Mutex<T>(tokio::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub fn new(t: T) -> Self {
        Mutex(tokio::sync::Mutex::new(t))
    }
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        step().await;
        self.0.lock().await
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        self.0.try_lock()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
