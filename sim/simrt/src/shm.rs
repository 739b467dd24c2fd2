//! The memory a run's process shares with the parent, so that runs that die by a signal can
//! be reported and replayed too. Layout: header, per-task notes, switch log, result.
use core::sync::atomic::{AtomicUsize, Ordering::*};

pub const NOTE: usize = 160;
pub const NOTES: usize = crate::sched::MAXT;
pub const LOG_CAP: usize = 1 << 17;
pub const RES_CAP: usize = 4 << 20;
const OFF_NOTES: usize = 64;
const OFF_LOG: usize = OFF_NOTES + NOTE * NOTES;
const OFF_RES: usize = OFF_LOG + LOG_CAP * 12;
pub const SIZE: usize = OFF_RES + RES_CAP;
static BASE: AtomicUsize = AtomicUsize::new(0);

pub fn create() -> usize {
    unsafe {
        crate::raw::sys6(
            libc::SYS_mmap,
            0,
            SIZE as i64,
            (libc::PROT_READ | libc::PROT_WRITE) as i64,
            (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64,
            -1,
            0,
        ) as usize
    }
}
pub fn use_base(b: usize) {
    BASE.store(b, Relaxed);
    unsafe { core::ptr::write_bytes(b as *mut u8, 0, OFF_LOG) }
}
unsafe fn word(b: usize, i: usize) -> *mut u32 {
    (b as *mut u32).add(i)
}
pub fn log_switch(step: u64, task: usize) -> bool {
    let b = BASE.load(Relaxed);
    if b == 0 {
        return true;
    }
    unsafe {
        let n = *word(b, 0) as usize;
        if n >= LOG_CAP {
            return false;
        }
        let p = (b + OFF_LOG + n * 12) as *mut u8;
        core::ptr::copy_nonoverlapping(&step as *const u64 as *const u8, p, 8);
        core::ptr::copy_nonoverlapping(&(task as u32) as *const u32 as *const u8, p.add(8), 4);
        *word(b, 0) = n as u32 + 1;
    }
    true
}
pub fn read_log(b: usize) -> Vec<(u64, usize)> {
    unsafe {
        let n = *word(b, 0) as usize;
        (0..n)
            .map(|i| {
                let p = (b + OFF_LOG + i * 12) as *const u8;
                ((p as *const u64).read_unaligned(), (p.add(8) as *const u32).read_unaligned() as usize)
            })
            .collect()
    }
}
/// What the task is doing now.
pub fn note(task: usize, s: &str) {
    let b = BASE.load(Relaxed);
    if b == 0 || task >= NOTES {
        return;
    }
    unsafe {
        let p = (b + OFF_NOTES + task * NOTE) as *mut u8;
        let l = s.len().min(NOTE - 2);
        *p = l as u8;
        core::ptr::copy_nonoverlapping(s.as_ptr(), p.add(1), l);
    }
}
pub fn notes(b: usize) -> Vec<String> {
    let mut o = vec![];
    for t in 0..NOTES {
        unsafe {
            let p = (b + OFF_NOTES + t * NOTE) as *const u8;
            let l = *p as usize;
            if l > 0 {
                o.push(String::from_utf8_lossy(core::slice::from_raw_parts(p.add(1), l)).into_owned());
            }
        }
    }
    o
}
pub fn put_result(r: &[u8]) {
    let b = BASE.load(Relaxed);
    unsafe {
        let l = r.len().min(RES_CAP);
        core::ptr::copy_nonoverlapping(r.as_ptr(), (b + OFF_RES) as *mut u8, l);
        *word(b, 1) = l as u32;
        *word(b, 2) = 1;
    }
}
pub fn result(b: usize) -> Option<Vec<u8>> {
    unsafe {
        if *word(b, 2) != 1 {
            return None;
        }
        Some(core::slice::from_raw_parts((b + OFF_RES) as *const u8, *word(b, 1) as usize).to_vec())
    }
}
