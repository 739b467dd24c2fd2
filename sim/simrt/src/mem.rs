//! The guarded-memory seam: tracks the mappings made by libsodium's allocator, their
//! protection over time, and what they hold when they are released.
use crate::sched;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Region {
    pub len: usize,
    /// page -> protection
    pub prot: Vec<i32>,
    pub locked: bool,
}
#[derive(Default)]
pub struct Mem {
    pub regions: BTreeMap<usize, Region>,
    pub mapped: u64,
    pub unmapped: u64,
    pub protects: u64,
    pub mlock_fail: u64,
    pub mlock_failed: u64,
    pub mlock_calls: u64,
    pub mmap_fail_nth: u64,
    pub mprotect_fail_nth: u64,
    pub mprotect_failed: u64,
    pub mmap_failed: u64,
    /// Registered secrets that must not survive in released or readable pages.
    pub needles: Vec<(String, Vec<u8>)>,
    pub leaks: Vec<String>,
    /// Bytes that were still set when a locked region was released.
    pub dirty_unmaps: u64,
}
static mut MEM: Option<Mem> = None;
#[allow(static_mut_refs)]
pub fn m() -> &'static mut Mem {
    unsafe { MEM.as_mut().unwrap() }
}
pub fn init() {
    let mut m = Mem::default();
    m.mmap_fail_nth = u64::MAX;
    m.mprotect_fail_nth = u64::MAX;
    unsafe { MEM = Some(m) };
}
const PAGE: usize = 4096;

pub fn before_mmap(_l: usize, f: i32) -> Option<i32> {
    if f & libc::MAP_STACK != 0 || sched::is_inert() {
        return None;
    }
    let m = m();
    let n = m.mapped;
    if n == m.mmap_fail_nth {
        m.mmap_failed += 1;
        m.mmap_fail_nth = u64::MAX;
        return Some(libc::ENOMEM);
    }
    None
}
pub fn after_mmap(a: usize, l: usize, p: i32, f: i32) {
    if f & libc::MAP_STACK != 0 {
        return;
    }
    let m = m();
    m.mapped += 1;
    let pages = (l + PAGE - 1) / PAGE;
    m.regions.insert(a, Region { len: pages * PAGE, prot: vec![p; pages], locked: false });
}
fn region_of(a: usize) -> Option<(usize, &'static mut Region)> {
    let (b, r) = m().regions.range_mut(..=a).next_back()?;
    if a < *b + r.len {
        Some((*b, r))
    } else {
        None
    }
}
/// The protection of the page holding an address (None: not in a tracked region).
pub fn prot_at(a: usize) -> Option<i32> {
    let (b, r) = region_of(a)?;
    Some(r.prot[(a - b) / PAGE])
}
/// Whether the region holding an address was locked into memory.
pub fn locked_at(a: usize) -> Option<bool> {
    region_of(a).map(|(_, r)| r.locked)
}
/// Whether the region holding an address contains the bytes, whatever its protection.
pub fn region_has(a: usize, x: &[u8]) -> Option<bool> {
    let (b, r) = region_of(a)?;
    let bytes = unsafe { read_region(b, r) };
    Some(crate::vfs::find(&bytes, x))
}
pub fn before_mprotect(a: usize, l: usize, p: i32) -> Option<i32> {
    let mm = m();
    // (the call with which libsodium opens a whole allocation in order to free it only merges
    // mappings and cannot fail; libsodium does not look at its result either)
    if mm.regions.get(&a).map(|r| r.len == l).unwrap_or(false) {
        if let Some(r) = mm.regions.get_mut(&a) {
            r.prot.iter_mut().for_each(|x| *x = p);
        }
        return None;
    }
    mm.protects += 1;
    if mm.protects - 1 == mm.mprotect_fail_nth {
        mm.mprotect_failed += 1;
        return Some(libc::ENOMEM);
    }
    if let Some((b, r)) = region_of(a) {
        let mut x = a;
        while x < a + l {
            let i = (x - b) / PAGE;
            if i < r.prot.len() {
                r.prot[i] = p;
            }
            x += PAGE;
        }
    }
    None
}
pub fn on_mlock(a: usize, _l: usize) -> Result<(), i32> {
    let mm = m();
    mm.mlock_calls += 1;
    if mm.mlock_fail != 0 && mm.mlock_calls % mm.mlock_fail == 0 {
        mm.mlock_failed += 1;
        return Err(libc::ENOMEM);
    }
    if let Some((_, r)) = region_of(a) {
        r.locked = true;
    }
    Ok(())
}
pub fn before_munmap(a: usize, l: usize) {
    let mm = m();
    if let Some(r) = mm.regions.remove(&a) {
        mm.unmapped += 1;
        if r.len == (l + PAGE - 1) / PAGE * PAGE {
            let bytes = unsafe { read_region(a, &r) };
            for j in crate::vfs::find_all(&bytes, &mm.needles) {
                let msg = format!("{} still in a memory region when it was released", mm.needles[j].0);
                if !mm.leaks.contains(&msg) {
                    mm.leaks.push(msg);
                }
            }
        } else {
            mm.regions.insert(a, r);
        }
    }
}
/// Copies the content of a region, lifting the protection of its pages for the moment.
unsafe fn read_region(a: usize, r: &Region) -> Vec<u8> {
    let mut out = vec![];
    // large mappings (fragments): only their beginning is used
    let n = if r.prot.len() > 256 { 16 } else { r.prot.len() };
    for (i, p) in r.prot.iter().take(n).enumerate() {
        let pg = a + i * PAGE;
        if p & libc::PROT_READ == 0 {
            crate::raw::sys3(libc::SYS_mprotect, pg as i64, PAGE as i64, libc::PROT_READ as i64);
        }
        out.extend_from_slice(core::slice::from_raw_parts(pg as *const u8, PAGE));
        if p & libc::PROT_READ == 0 {
            crate::raw::sys3(libc::SYS_mprotect, pg as i64, PAGE as i64, *p as i64);
        }
    }
    out
}
/// Secrets found in pages that are readable right now.
pub fn readable_secrets() -> Vec<String> {
    let mut out = vec![];
    for (a, r) in &m().regions {
        let mut run: Vec<u8> = vec![];
        let n = if r.prot.len() > 256 { 16 } else { r.prot.len() };
        for (i, p) in r.prot.iter().take(n).enumerate() {
            if p & libc::PROT_READ != 0 {
                run.extend_from_slice(unsafe { core::slice::from_raw_parts((a + i * PAGE) as *const u8, PAGE) });
            }
        }
        for j in crate::vfs::find_all(&run, &m().needles) {
            out.push(m().needles[j].0.clone());
        }
    }
    out
}
/// Number of regions in which some page between the guards is accessible.
/// libsodium's layout: one read-only page holding the size, a guard page, data pages, a guard page.
pub fn open_regions() -> usize {
    let mut n = 0;
    for r in m().regions.values() {
        let k = r.prot.len();
        if k >= 4 && r.prot[1] == libc::PROT_NONE && r.prot[k - 1] == libc::PROT_NONE {
            if r.prot[2..k - 1].iter().any(|p| *p != libc::PROT_NONE) {
                n += 1;
            }
        }
    }
    n
}
/// Whether the registered secrets lie in any guarded region (whatever its protection), and in
/// how many.
pub fn guarded_secrets() -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    for (a, r) in &m().regions {
        let bytes = unsafe { read_region(*a, r) };
        for j in crate::vfs::find_all(&bytes, &m().needles) {
            *out.entry(m().needles[j].0.clone()).or_insert(0) += 1;
        }
    }
    out
}
