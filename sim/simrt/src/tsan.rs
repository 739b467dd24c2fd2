//! The ThreadSanitizer instrumentation interface, implemented as scheduling points.
//! The repository's crates are compiled with -Zsanitizer=thread; this file is the
//! "runtime" they call. Atomic operations are performed here, sequentially consistent.
#![allow(clippy::missing_safety_doc)]
use crate::sched;
use core::sync::atomic::*;
use core::sync::atomic::Ordering::SeqCst;

/// Set per run: plain memory accesses to heap words used by two tasks are scheduling points.
pub static mut MEM_MODE: bool = false;
pub static mut MEM_POINTS: u64 = 0;
pub static mut ATOMIC_POINTS: u64 = 0;
const TBL: usize = 1 << 16;
static mut TAG: [u64; TBL] = [0; TBL];

#[inline(always)]
unsafe fn mem(a: usize) {
    if MEM_MODE && crate::alloc::in_run_arena(a) {
        mem_slow(a)
    }
}
#[cold]
#[inline(never)]
unsafe fn mem_slow(a: usize) {
    let me = sched::me();
    if me == sched::NONE || sched::is_inert() {
        return;
    }
    let w = (a >> 3) as u64;
    let slot = (w.wrapping_mul(0x9e3779b97f4a7c15) >> 48) as usize & (TBL - 1);
    let e = TAG[slot];
    // entry: word address (high 48 bits), shared flag (bit 15), last task + 1 (low bits)
    let tag = w << 16;
    let mine = me as u64 + 1;
    if e & !0xffff != tag {
        TAG[slot] = tag | mine;
        return;
    }
    if e & 0x8000 == 0 {
        if e & 0x7fff == mine {
            return;
        }
        TAG[slot] = tag | 0x8000 | mine;
    }
    MEM_POINTS += 1;
    sched::point();
}
/// Freshly allocated memory is not shared, whatever was at the address before.
#[inline]
pub fn forget(a: usize, n: usize) {
    unsafe {
        if MEM_MODE {
            let first = (a >> 3) as u64;
            let words = (n.min(2048) as u64 + 7) / 8;
            for w in first..first + words {
                let slot = (w.wrapping_mul(0x9e3779b97f4a7c15) >> 48) as usize & (TBL - 1);
                if TAG[slot] & !0xffff == w << 16 {
                    TAG[slot] = 0;
                }
            }
        }
    }
}
#[allow(static_mut_refs)]
pub fn reset(mode: bool) {
    unsafe {
        MEM_MODE = mode;
        MEM_POINTS = 0;
        ATOMIC_POINTS = 0;
        if mode {
            for t in TAG.iter_mut() {
                *t = 0;
            }
        }
    }
}
#[inline(always)]
unsafe fn at() {
    if sched::in_task() {
        ATOMIC_POINTS += 1;
        sched::point();
    }
}
#[no_mangle] pub unsafe extern "C" fn __tsan_init() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_ignore_thread_end() {}
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_update(p: *const u8, _v: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_vptr_read(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_range(p: *const u8, n: usize) { if n > 0 { mem(p as usize) } }
#[no_mangle] pub unsafe extern "C" fn __tsan_write_range(p: *const u8, n: usize) { if n > 0 { mem(p as usize) } }
#[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if n > 0 { mem(s as usize); mem(d as usize); } core::ptr::copy_nonoverlapping(s, d, n); d }
#[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { if n > 0 { mem(s as usize); mem(d as usize); } core::ptr::copy(s, d, n); d }
#[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { if n > 0 { mem(d as usize); } core::ptr::write_bytes(d, c as u8, n); d }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_thread_fence(_mo: i32) { fence(SeqCst); at() }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
#[no_mangle] pub unsafe extern "C" fn __tsan_read1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write1(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write2(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write4(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write8(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_read16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_read16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_volatile_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_volatile_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_read_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_unaligned_read_write16(p: *const u8) { mem(p as usize) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_load(p: *const u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.load(SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_store(p: *mut u8, v: u8, _mo: i32) { at(); let a = &*(p as *const AtomicU8); a.store(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_exchange(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.swap(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_add(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_add(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_sub(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_sub(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_and(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_and(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_or(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_or(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_xor(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_xor(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_fetch_nand(p: *mut u8, v: u8, _mo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); a.fetch_nand(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_strong(p: *mut u8, c: *mut u8, v: u8, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU8); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_weak(p: *mut u8, c: *mut u8, v: u8, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU8); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic8_compare_exchange_val(p: *mut u8, c: u8, v: u8, _mo: i32, _fmo: i32) -> u8 { at(); let a = &*(p as *const AtomicU8); match a.compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_load(p: *const u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.load(SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_store(p: *mut u16, v: u16, _mo: i32) { at(); let a = &*(p as *const AtomicU16); a.store(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_exchange(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.swap(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_add(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_add(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_sub(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_sub(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_and(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_and(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_or(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_or(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_xor(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_xor(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_fetch_nand(p: *mut u16, v: u16, _mo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); a.fetch_nand(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_strong(p: *mut u16, c: *mut u16, v: u16, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU16); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_weak(p: *mut u16, c: *mut u16, v: u16, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU16); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic16_compare_exchange_val(p: *mut u16, c: u16, v: u16, _mo: i32, _fmo: i32) -> u16 { at(); let a = &*(p as *const AtomicU16); match a.compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_load(p: *const u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.load(SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_store(p: *mut u32, v: u32, _mo: i32) { at(); let a = &*(p as *const AtomicU32); a.store(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_exchange(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.swap(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_add(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_add(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_sub(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_sub(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_and(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_and(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_or(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_or(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_xor(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_xor(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_fetch_nand(p: *mut u32, v: u32, _mo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); a.fetch_nand(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_strong(p: *mut u32, c: *mut u32, v: u32, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU32); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_weak(p: *mut u32, c: *mut u32, v: u32, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU32); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic32_compare_exchange_val(p: *mut u32, c: u32, v: u32, _mo: i32, _fmo: i32) -> u32 { at(); let a = &*(p as *const AtomicU32); match a.compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_load(p: *const u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.load(SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_store(p: *mut u64, v: u64, _mo: i32) { at(); let a = &*(p as *const AtomicU64); a.store(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_exchange(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.swap(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_add(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_add(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_sub(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_sub(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_and(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_and(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_or(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_or(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_xor(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_xor(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_fetch_nand(p: *mut u64, v: u64, _mo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); a.fetch_nand(v, SeqCst) }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_strong(p: *mut u64, c: *mut u64, v: u64, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU64); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_weak(p: *mut u64, c: *mut u64, v: u64, _mo: i32, _fmo: i32) -> i32 { at(); let a = &*(p as *const AtomicU64); match a.compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } } }
#[no_mangle] pub unsafe extern "C" fn __tsan_atomic64_compare_exchange_val(p: *mut u64, c: u64, v: u64, _mo: i32, _fmo: i32) -> u64 { at(); let a = &*(p as *const AtomicU64); match a.compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x } }
