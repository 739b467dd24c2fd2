//! Raw system calls (never through libc symbols, which this crate overrides).
use core::arch::asm;
#[inline(always)]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sys3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}
pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}
/// Converts a raw return value to the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub unsafe fn futex_wait(w: *const u32, val: u32) {
    sys6(libc::SYS_futex, w as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(w: *const u32) {
    sys6(libc::SYS_futex, w as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 1, 0, 0, 0);
}
pub unsafe fn write_all(fd: i32, s: &[u8]) {
    let mut p = 0;
    while p < s.len() {
        let r = sys3(libc::SYS_write, fd as i64, s[p..].as_ptr() as i64, (s.len() - p) as i64);
        if r <= 0 {
            break;
        }
        p += r as usize;
    }
}
pub fn now_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys3(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
