//! Deterministic global allocator: two arenas at fixed addresses. The harness arena
//! serves the parent and everything before a run; the run arena is switched on in the
//! forked child, so that the addresses a run sees depend on that run alone.
use crate::raw;
use core::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};
use std::alloc::{GlobalAlloc, Layout};

pub const HARNESS_BASE: usize = 0x1000_0000_0000;
pub const RUN_BASE: usize = 0x2000_0000_0000;
const HARNESS_CAP: usize = 4 << 30;
pub const RUN_CAP: usize = 1 << 30;
const NCLASS: usize = 96;

struct Arena {
    base: usize,
    cap: usize,
    bump: usize,
    mapped: bool,
    free: [usize; NCLASS],
    live: usize,
}
impl Arena {
    const fn new(base: usize, cap: usize) -> Arena {
        Arena { base, cap, bump: 0, mapped: false, free: [0; NCLASS], live: 0 }
    }
    unsafe fn map(&mut self) {
        let r = raw::sys6(
            libc::SYS_mmap,
            self.base as i64,
            self.cap as i64,
            (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as i64,
            -1,
            0,
        );
        if r != self.base as i64 {
            raw::write_all(2, b"simrt: cannot map arena\n");
            raw::sys3(libc::SYS_exit_group, 3, 0, 0);
        }
        self.mapped = true;
    }
    unsafe fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        if !self.mapped {
            self.map();
        }
        let (cls, csz) = class(size.max(align).max(16));
        self.live += csz;
        if align <= 4096 && self.free[cls] != 0 {
            let p = self.free[cls];
            if p % align == 0 {
                self.free[cls] = *(p as *const usize);
                return p as *mut u8;
            }
        }
        let al = align.max(16).max(if csz >= 4096 { 4096 } else { 16 });
        let start = (self.base + self.bump + al - 1) / al * al;
        let end = start + csz;
        if end > self.base + self.cap {
            return core::ptr::null_mut();
        }
        self.bump = end - self.base;
        start as *mut u8
    }
    unsafe fn dealloc(&mut self, p: *mut u8, size: usize, align: usize) {
        let (cls, csz) = class(size.max(align).max(16));
        self.live -= csz;
        *(p as *mut usize) = self.free[cls];
        self.free[cls] = p as usize;
    }
}
/// Size classes: powers of two and the midpoints between them.
fn class(size: usize) -> (usize, usize) {
    let lz = usize::BITS - (size - 1).leading_zeros(); // ceil log2
    let hi = 1usize << lz;
    let mid = hi / 4 * 3;
    if size <= mid && mid % 16 == 0 {
        ((lz as usize) * 2, mid)
    } else {
        ((lz as usize) * 2 + 1, hi)
    }
}

pub struct SimAlloc;
static LOCK: AtomicU32 = AtomicU32::new(0);
static RUN_MODE: AtomicBool = AtomicBool::new(false);
static mut HARNESS: Arena = Arena::new(HARNESS_BASE, HARNESS_CAP);
static mut RUN: Arena = Arena::new(RUN_BASE, RUN_CAP);

fn lock() {
    while LOCK.compare_exchange_weak(0, 1, Acquire, Relaxed).is_err() {
        unsafe { raw::sys3(libc::SYS_sched_yield, 0, 0, 0) };
    }
}
fn unlock() {
    LOCK.store(0, Release);
}

#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        lock();
        let p = if RUN_MODE.load(Relaxed) && !crate::sched::is_inert() {
            let p = RUN.alloc(l.size(), l.align());
            crate::tsan::forget(p as usize, l.size());
            p
        } else {
            HARNESS.alloc(l.size(), l.align())
        };
        unlock();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        lock();
        if (p as usize) >= RUN_BASE && (p as usize) < RUN_BASE + RUN_CAP {
            RUN.dealloc(p, l.size(), l.align())
        } else {
            HARNESS.dealloc(p, l.size(), l.align())
        }
        unlock();
    }
    // (the default methods of the trait would be compiled with instrumentation, and a growing
    // vector of the simulator itself would then be a scheduling point)
    #[inline(never)]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
    #[inline(never)]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
}

/// Switches to the run arena (in the forked child).
pub fn enter_run() {
    RUN_MODE.store(true, SeqCst);
}
/// After a fork the lock may be held only by the forking thread itself; reset it.
pub fn after_fork() {
    LOCK.store(0, SeqCst);
}
#[allow(static_mut_refs)]
pub fn run_bump() -> usize {
    unsafe { RUN.bump }
}
#[allow(static_mut_refs)]
pub fn run_live() -> usize {
    unsafe { RUN.live }
}
#[inline(always)]
pub fn in_run_arena(a: usize) -> bool {
    a.wrapping_sub(RUN_BASE) < RUN_CAP
}
