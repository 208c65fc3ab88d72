//! Per-thread virtual clock: `clock_gettime` is defined in the harness binary,
//! so std::time, chrono and tokio read it. A thread that has not called `set`
//! sees the real clock.
use std::cell::Cell;

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

thread_local! { static NOW_NS: Cell<u64> = const { Cell::new(0) }; }

/// 2030-01-01T00:00:00Z
pub const EPOCH_NS: u64 = 1_893_456_000_000_000_000;

pub fn set(ns: u64) {
    NOW_NS.with(|c| c.set(ns));
}
pub fn reset() {
    set(EPOCH_NS)
}
pub fn real() {
    set(0)
}
pub fn now() -> u64 {
    NOW_NS.with(|c| c.get())
}
pub fn advance_ms(ms: u64) {
    NOW_NS.with(|c| c.set(c.get() + ms * 1_000_000));
}
pub fn advance_ns(ns: u64) {
    NOW_NS.with(|c| c.set(c.get() + ns));
}

#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let v = NOW_NS.try_with(|c| c.get()).unwrap_or(0);
    // 0 REALTIME, 1 MONOTONIC, 4 MONOTONIC_RAW, 5/6 coarse, 7 BOOTTIME
    if v != 0 && matches!(clk, 0 | 1 | 4 | 5 | 6 | 7) {
        (*ts).sec = (v / 1_000_000_000) as i64;
        (*ts).nsec = (v % 1_000_000_000) as i64;
        return 0;
    }
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") clk as i64, in("rsi") ts,
        out("rcx") _, out("r11") _);
    if r < 0 {
        -1
    } else {
        0
    }
}
