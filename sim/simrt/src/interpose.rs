//! Definitions of the libc symbols through which std, libsodium and the repository's
//! dependencies reach the operating system. Calls made by a task go to the simulator;
//! calls made by any other thread go to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::raw::{ret, set_errno, sys3, sys6};
use crate::{mem, sched, vfs};
use core::sync::atomic::{AtomicU64, Ordering::*};
use libc::*;
use std::ffi::CStr;

unsafe fn cs(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().into_owned()
}
#[inline(always)]
fn sim() -> bool {
    sched::in_task()
}
fn passthrough(p: &str) -> bool {
    p.starts_with("/proc/") || p.starts_with("/sys/") || p.starts_with("/dev/") || p.starts_with("/etc/") || p.starts_with("/usr/")
}
fn virt(fd: i32) -> bool {
    fd >= vfs::FD_BASE
}
unsafe fn r0(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn rn(r: Result<usize, i32>) -> ssize_t {
    match r {
        Ok(n) => n as ssize_t,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
fn abs(p: &str) -> String {
    if p.starts_with('/') {
        p.to_string()
    } else {
        // (an empty path names nothing)
        format!("/simfs/cwd/{}", if p.is_empty() { "\u{1}none/none" } else { p })
    }
}
unsafe fn at(dirfd: c_int, p: *const c_char) -> String {
    let p = cs(p);
    if p.starts_with('/') || dirfd == AT_FDCWD || !virt(dirfd) {
        abs(&p)
    } else {
        let base = vfs::v().fd(dirfd).map(|f| f.path.clone()).unwrap_or_default();
        format!("{base}/{p}")
    }
}
unsafe fn next(name: &CStr) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, name.as_ptr());
    if p.is_null() {
        sys3(SYS_exit_group, 3, 0, 0);
    }
    p
}
macro_rules! real {
    ($n:literal, $t:ty) => {{
        static P: AtomicU64 = AtomicU64::new(0);
        let mut p = P.load(Relaxed);
        if p == 0 {
            p = next(CStr::from_bytes_with_nul_unchecked(concat!($n, "\0").as_bytes())) as u64;
            P.store(p, Relaxed);
        }
        core::mem::transmute::<u64, $t>(p)
    }};
}

// ---------------------------------------------------------------- threads
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
pub unsafe fn real_pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    real!("pthread_create", unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, Start, *mut c_void) -> c_int)(t, a, f, arg)
}
pub unsafe fn real_pthread_join(t: pthread_t) -> c_int {
    real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int)(t, core::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, a: *const pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    if !sim() {
        return real_pthread_create(t, a, f, arg);
    }
    if sched::s().tasks.len() >= sched::MAXT {
        return EAGAIN;
    }
    let id = sched::inert(|| sched::add_task("thread", None, Some((f, arg as usize))));
    *t = sched::s().tasks[id].pthread;
    sched::point();
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, r: *mut *mut c_void) -> c_int {
    if !sim() {
        return real!("pthread_join", unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int)(t, r);
    }
    match sched::s().tasks.iter().rposition(|x| x.pthread == t) {
        Some(i) => {
            let v = sched::join(i);
            if !r.is_null() {
                *r = v as *mut c_void;
            }
            0
        }
        None => ESRCH,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    if !sim() {
        return real!("pthread_detach", unsafe extern "C" fn(pthread_t) -> c_int)(t);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim() {
        sched::yield_now();
        0
    } else {
        sys3(SYS_sched_yield, 0, 0, 0) as c_int
    }
}

// ---------------------------------------------------------------- time
unsafe fn clock(id: clockid_t, ts: *mut timespec) {
    let ns: i128 = match id {
        CLOCK_REALTIME | CLOCK_REALTIME_COARSE => sched::wall_ns(),
        _ => sched::s().clock as i128,
    };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as i64;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if sim() {
        sched::point();
        clock(id, ts);
        return 0;
    }
    ret(sys3(SYS_clock_gettime, id as i64, ts as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut time_t) -> time_t {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
unsafe fn ns_of(ts: *const timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const timespec, b: *mut timespec) -> c_int {
    if sim() {
        sched::sleep_ns(ns_of(a));
        return 0;
    }
    ret(sys3(SYS_nanosleep, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, fl: c_int, a: *const timespec, b: *mut timespec) -> c_int {
    if sim() {
        let t = ns_of(a);
        if fl & TIMER_ABSTIME != 0 {
            let now = if id == CLOCK_REALTIME { sched::wall_ns().max(0) as u64 } else { sched::s().clock };
            sched::sleep_ns(t.saturating_sub(now));
        } else {
            sched::sleep_ns(t);
        }
        return 0;
    }
    -(sys6(SYS_clock_nanosleep, id as i64, fl as i64, a as i64, b as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn usleep(us: c_uint) -> c_int {
    let ts = timespec { tv_sec: us as i64 / 1_000_000, tv_nsec: us as i64 % 1_000_000 * 1000 };
    nanosleep(&ts, core::ptr::null_mut())
}

// ---------------------------------------------------------------- randomness
static mut RAND_STATE: u64 = 0x1234_5678;
pub static mut RAND_CALLS: u64 = 0;
/// Seeds the random bytes handed to the program (in the forked child).
pub fn seed_random(s: u64) {
    unsafe { RAND_STATE = s ^ 0xabcdef1234567 }
}
unsafe fn fill_random(p: *mut u8, n: usize) {
    let mut i = 0;
    while i < n {
        RAND_STATE = RAND_STATE.wrapping_add(0x9e3779b97f4a7c15);
        let v = crate::rng::mix(RAND_STATE).to_le_bytes();
        let k = (n - i).min(8);
        core::ptr::copy_nonoverlapping(v.as_ptr(), p.add(i), k);
        i += k;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
    if sim() {
        RAND_CALLS += 1;
        if !sched::is_inert() {
            sched::point();
            match vfs::rand_fault() {
                Some(0) if n > 1 => {
                    fill_random(p as *mut u8, n / 2);
                    return (n / 2) as ssize_t;
                }
                Some(e) if e > 0 => {
                    set_errno(e);
                    return -1;
                }
                _ => {}
            }
        }
    }
    fill_random(p as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut c_void, n: size_t) -> c_int {
    let mut i = 0;
    while i < n {
        let r = getrandom((p as *mut u8).add(i) as *mut c_void, n - i, 0);
        if r < 0 {
            return -1;
        }
        i += r as usize;
    }
    0
}

// ---------------------------------------------------------------- syscall(2)
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_getrandom {
        return getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    if sim() {
        match n {
            SYS_futex => {
                let op = b as i32 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
                match op {
                    FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                        let ts = d as *const timespec;
                        let dl = if ts.is_null() {
                            None
                        } else if op == FUTEX_WAIT {
                            Some(sched::s().clock.saturating_add(ns_of(ts)))
                        } else if b as i32 & FUTEX_CLOCK_REALTIME != 0 {
                            let left = (ns_of(ts) as i128 - sched::wall_ns()).max(0) as u64;
                            Some(sched::s().clock.saturating_add(left))
                        } else {
                            Some(ns_of(ts))
                        };
                        let r = sched::futex_wait(a as *const u32, c as u32, dl);
                        if r != 0 {
                            set_errno(r);
                            return -1;
                        }
                        return 0;
                    }
                    FUTEX_WAKE | FUTEX_WAKE_BITSET => return sched::futex_wake(a as *const u32, c as u32),
                    _ => {
                        set_errno(ENOSYS);
                        return -1;
                    }
                }
            }
            SYS_statx => {
                return statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut libc::statx) as c_long;
            }
            SYS_copy_file_range => {
                set_errno(ENOSYS);
                return -1;
            }
            _ => {}
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- files
unsafe fn do_open(p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    let path = cs(p);
    if !sim() || passthrough(&path) {
        return ret(sys6(SYS_openat, AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int;
    }
    let path = abs(&path);
    vfs::v().scan_name(&path);
    match vfs::enter("open", &path).and_then(|k| vfs::v().open(k, &path, fl, mode)) {
        Ok(f) => f,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    do_open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    do_open(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    do_open(p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
unsafe fn do_openat(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    if !sim() {
        return ret(sys6(SYS_openat, d as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int;
    }
    let path = at(d, p);
    let c = std::ffi::CString::new(path).unwrap();
    do_open(c.as_ptr(), fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    do_openat(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: mode_t) -> c_int {
    do_openat(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if sim() && virt(fd) {
        sched::point();
        return r0(vfs::v().close(fd));
    }
    ret(sys3(SYS_close, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if sim() && virt(fd) {
        return rn(vfs::enter("read", &vfs::fd_path(fd)).and_then(|k| vfs::v().read(k, fd, core::slice::from_raw_parts_mut(b as *mut u8, n), None)));
    }
    ret(sys3(SYS_read, fd as i64, b as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if sim() && virt(fd) {
        return rn(vfs::enter("write", &vfs::fd_path(fd)).and_then(|k| vfs::v().write(k, fd, core::slice::from_raw_parts(b as *const u8, n), None)));
    }
    ret(sys3(SYS_write, fd as i64, b as i64, n as i64)) as ssize_t
}
unsafe fn do_pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    if sim() && virt(fd) {
        return rn(vfs::enter("read", &vfs::fd_path(fd)).and_then(|k| vfs::v().read(k, fd, core::slice::from_raw_parts_mut(b as *mut u8, n), Some(o as usize))));
    }
    ret(sys6(SYS_pread64, fd as i64, b as i64, n as i64, o, 0, 0)) as ssize_t
}
unsafe fn do_pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    if sim() && virt(fd) {
        return rn(vfs::enter("write", &vfs::fd_path(fd)).and_then(|k| vfs::v().write(k, fd, core::slice::from_raw_parts(b as *const u8, n), Some(o as usize))));
    }
    ret(sys6(SYS_pwrite64, fd as i64, b as i64, n as i64, o, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pread(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pread(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pwrite(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    do_pwrite(fd, b, n, o)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim() && virt(fd) {
        let mut t = 0;
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len == 0 {
                continue;
            }
            let r = read(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return if t > 0 { t } else { r };
            }
            t += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return t;
    }
    ret(sys3(SYS_readv, fd as i64, iov as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if sim() && virt(fd) {
        let mut buf = vec![];
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                buf.extend_from_slice(core::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
        }
        return write(fd, buf.as_ptr() as *const c_void, buf.len());
    }
    ret(sys3(SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t
}
unsafe fn do_lseek(fd: c_int, o: i64, w: c_int) -> i64 {
    if sim() && virt(fd) {
        return match vfs::v().lseek(fd, o, w) {
            Ok(x) => x,
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(sys3(SYS_lseek, fd as i64, o, w as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, o: off_t, w: c_int) -> off_t {
    do_lseek(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t {
    do_lseek(fd, o, w)
}
unsafe fn do_fsync(fd: c_int) -> c_int {
    match vfs::enter("fsync", &vfs::fd_path(fd)) {
        Ok(k) => r0(vfs::v().fsync(k, fd)),
        Err(e) => {
            vfs::v().fsync_failed(fd);
            set_errno(e);
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sim() && virt(fd) {
        return do_fsync(fd);
    }
    ret(sys3(SYS_fsync, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sim() && virt(fd) {
        return do_fsync(fd);
    }
    ret(sys3(SYS_fdatasync, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if sim() {
        vfs::v().sync_everything();
    }
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if sim() && virt(fd) {
        vfs::v().sync_everything();
        return 0;
    }
    0
}
unsafe fn do_ftruncate(fd: c_int, l: i64) -> c_int {
    if sim() && virt(fd) {
        return r0(vfs::enter("trunc", &vfs::fd_path(fd)).and_then(|k| vfs::v().ftruncate(k, fd, l as usize)));
    }
    ret(sys3(SYS_ftruncate, fd as i64, l, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, l: off_t) -> c_int {
    do_ftruncate(fd, l)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, l: off64_t) -> c_int {
    do_ftruncate(fd, l)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let (a, b) = (abs(&cs(a)), abs(&cs(b)));
        vfs::v().scan_name(&b);
        return r0(vfs::enter("rename", &format!("{a} -> {b}")).and_then(|k| vfs::v().rename(k, &a, &b)));
    }
    ret(sys3(SYS_rename, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    if sim() {
        let (a, b) = (at(d, a), at(e, b));
        return r0(vfs::enter("rename", &format!("{a} -> {b}")).and_then(|k| vfs::v().rename(k, &a, &b)));
    }
    ret(sys6(SYS_renameat, d as i64, a as i64, e as i64, b as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        let (a, b) = (abs(&cs(a)), abs(&cs(b)));
        return r0(vfs::enter("link", &b).and_then(|k| vfs::v().link(k, &a, &b)));
    }
    ret(sys3(SYS_link, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if sim() {
        let (a, b) = (at(d, a), at(e, b));
        return r0(vfs::enter("link", &b).and_then(|k| vfs::v().link(k, &a, &b)));
    }
    ret(sys6(SYS_linkat, d as i64, a as i64, e as i64, b as i64, f as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if sim() {
        let p = abs(&cs(p));
        return r0(vfs::enter("unlink", &p).and_then(|k| vfs::v().unlink(k, &p, false)));
    }
    ret(sys3(SYS_unlink, p as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if sim() {
        let p = at(d, p);
        return r0(vfs::enter("unlink", &p).and_then(|k| vfs::v().unlink(k, &p, f & AT_REMOVEDIR != 0)));
    }
    ret(sys3(SYS_unlinkat, d as i64, p as i64, f as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if sim() {
        let p = abs(&cs(p));
        return r0(vfs::enter("unlink", &p).and_then(|k| vfs::v().unlink(k, &p, true)));
    }
    ret(sys3(SYS_rmdir, p as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if sim() {
        let p = abs(&cs(p));
        return r0(vfs::enter("mkdir", &p).and_then(|k| vfs::v().mkdir(k, &p, m)));
    }
    ret(sys3(SYS_mkdir, p as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if sim() {
        set_errno(EPERM);
        return -1;
    }
    ret(sys3(SYS_symlink, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if sim() {
        let p = abs(&cs(p));
        return r0(vfs::enter("chmod", &p).and_then(|k| vfs::v().chmod(k, &p, m)));
    }
    ret(sys3(SYS_chmod, p as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    if sim() && virt(fd) {
        return r0(vfs::enter("chmod", &vfs::fd_path(fd)).and_then(|k| vfs::v().fchmod(k, fd, m)));
    }
    ret(sys3(SYS_fchmod, fd as i64, m as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if sim() {
        let p = abs(&cs(p));
        return r0(vfs::enter("stat", &p).and_then(|k| vfs::v().stat(k, &p)).map(|_| ()));
    }
    ret(sys3(SYS_access, p as i64, m as i64, 0)) as c_int
}
unsafe fn fill(ino: usize, st: *mut stat64) {
    core::ptr::write_bytes(st as *mut u8, 0, core::mem::size_of::<stat64>());
    let n = &vfs::v().inodes[ino];
    (*st).st_ino = ino as u64 + 100;
    (*st).st_mode = n.mode | if n.dir { S_IFDIR } else { S_IFREG };
    (*st).st_nlink = 1;
    (*st).st_size = n.data.len() as i64;
    (*st).st_blksize = 4096;
    (*st).st_blocks = (n.data.len() as i64 + 511) / 512;
    (*st).st_mtime = (n.mtime / 1_000_000_000) as i64;
}
unsafe fn do_stat(p: *const c_char, st: *mut stat64, nofollow: bool) -> c_int {
    let path = cs(p);
    if !sim() || passthrough(&path) {
        let fl = if nofollow { AT_SYMLINK_NOFOLLOW } else { 0 };
        return ret(sys6(SYS_newfstatat, AT_FDCWD as i64, p as i64, st as i64, fl as i64, 0, 0)) as c_int;
    }
    let path = abs(&path);
    match vfs::enter("stat", &path).and_then(|k| vfs::v().stat(k, &path)) {
        Ok(i) => {
            fill(i, st);
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
unsafe fn do_fstat(fd: c_int, st: *mut stat64) -> c_int {
    if sim() && virt(fd) {
        return match vfs::enter("stat", &vfs::fd_path(fd)).and_then(|k| vfs::v().fstat(k, fd)) {
            Ok(i) => {
                fill(i, st);
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        };
    }
    ret(sys3(SYS_fstat, fd as i64, st as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, false)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut stat64) -> c_int {
    do_stat(p, st, true)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut stat64) -> c_int {
    do_fstat(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut stat64) -> c_int {
    do_fstat(fd, st)
}
unsafe fn do_fstatat(d: c_int, p: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
    if sim() {
        if *p == 0 {
            return do_fstat(d, st);
        }
        let c = std::ffi::CString::new(at(d, p)).unwrap();
        return do_stat(c.as_ptr(), st, fl & AT_SYMLINK_NOFOLLOW != 0);
    }
    ret(sys6(SYS_newfstatat, d as i64, p as i64, st as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, p: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
    do_fstatat(d, p, st, fl)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut stat64, fl: c_int) -> c_int {
    do_fstatat(d, p, st, fl)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if sim() {
        let mut st: stat64 = core::mem::zeroed();
        let r = if p.is_null() {
            set_errno(EFAULT);
            -1
        } else if *p == 0 && virt(d) {
            do_fstat(d, &mut st)
        } else if *p == 0 {
            return ret(sys6(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0)) as c_int;
        } else {
            let path = at(d, p);
            if passthrough(&path) {
                return ret(sys6(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0)) as c_int;
            }
            let c = std::ffi::CString::new(path).unwrap();
            do_stat(c.as_ptr(), &mut st, false)
        };
        if r != 0 {
            return r;
        }
        core::ptr::write_bytes(out as *mut u8, 0, core::mem::size_of::<libc::statx>());
        (*out).stx_mask = STATX_BASIC_STATS;
        (*out).stx_mode = st.st_mode as u16;
        (*out).stx_ino = st.st_ino;
        (*out).stx_nlink = 1;
        (*out).stx_size = st.st_size as u64;
        (*out).stx_blksize = 4096;
        (*out).stx_blocks = st.st_blocks as u64;
        (*out).stx_mtime.tv_sec = st.st_mtime;
        return 0;
    }
    ret(sys6(SYS_statx, d as i64, p as i64, fl as i64, mask as i64, out as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !sim() {
        return real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out);
    }
    let path = format!("/{}", vfs::split(&abs(&cs(p))).join("/"));
    match vfs::enter("stat", &path).and_then(|k| vfs::v().stat(k, &path)) {
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
        Ok(_) => {
            let dst = if out.is_null() { malloc(path.len() + 1) as *mut c_char } else { out };
            core::ptr::copy_nonoverlapping(path.as_ptr(), dst as *mut u8, path.len());
            *dst.add(path.len()) = 0;
            dst
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if sim() && !passthrough(&cs(p)) {
        set_errno(EINVAL);
        return -1;
    }
    ret(sys3(SYS_readlink, p as i64, b as i64, n as i64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !sim() {
        return real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(b, n);
    }
    let p = b"/simfs/cwd\0";
    if n < p.len() || b.is_null() {
        set_errno(ERANGE);
        return core::ptr::null_mut();
    }
    core::ptr::copy_nonoverlapping(p.as_ptr(), b as *mut u8, p.len());
    b
}
unsafe fn dup_fd(fd: c_int) -> c_int {
    let f = match vfs::v().fd(fd) {
        Ok(f) => f.clone(),
        Err(e) => {
            set_errno(e);
            return -1;
        }
    };
    let v = vfs::v();
    v.fds.push(f);
    vfs::FD_BASE + v.fds.len() as i32 - 1
}
unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if sim() && virt(fd) {
        return match cmd {
            F_DUPFD | F_DUPFD_CLOEXEC => dup_fd(fd),
            F_GETFL => match vfs::v().fd(fd) {
                Ok(f) => match (f.read, f.write) {
                    (true, false) => O_RDONLY,
                    (false, true) => O_WRONLY,
                    _ => O_RDWR,
                },
                Err(e) => {
                    set_errno(e);
                    -1
                }
            },
            _ => 0,
        };
    }
    ret(sys3(SYS_fcntl, fd as i64, cmd as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if sim() && virt(fd) {
        return dup_fd(fd);
    }
    ret(sys3(SYS_dup, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: c_long) -> c_int {
    if sim() && virt(fd) {
        set_errno(ENOTTY);
        return -1;
    }
    ret(sys3(SYS_ioctl, fd as i64, req as i64, arg)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if sim() && virt(fd) {
        loop {
            let ino = match vfs::v().fd(fd) {
                Ok(f) => f.ino,
                Err(e) => {
                    set_errno(e);
                    return -1;
                }
            };
            let n = &mut vfs::v().inodes[ino];
            if op & LOCK_UN != 0 {
                n.lock = 0;
                return 0;
            }
            if n.lock == 0 || n.lock == fd {
                n.lock = fd;
                return 0;
            }
            if op & LOCK_NB != 0 {
                set_errno(EWOULDBLOCK);
                return -1;
            }
            sched::sleep_ns(1_000_000);
        }
    }
    ret(sys3(SYS_flock, fd as i64, op as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_o: c_int, _i: c_int, _off: *mut off64_t, _n: size_t) -> ssize_t {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut off64_t, _c: c_int, _d: *mut off64_t, _n: size_t, _f: c_uint) -> ssize_t {
    set_errno(ENOSYS);
    -1
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, t: *const timespec, f: c_int) -> c_int {
    if sim() {
        return 0;
    }
    ret(sys6(SYS_utimensat, d as i64, p as i64, t as i64, f as i64, 0, 0)) as c_int
}
// directory streams
const DIRMAGIC: u64 = 0x51d1_0000_51d1_0001;
#[repr(C)]
struct VDir {
    magic: u64,
    fd: i32,
    names: Vec<(String, bool)>,
    pos: usize,
    ent: dirent64,
}
unsafe fn vdir(path: &str, fd: i32) -> *mut DIR {
    let v = vfs::v();
    let names = match v.list(path) {
        Ok(n) => n,
        Err(e) => {
            set_errno(e);
            return core::ptr::null_mut();
        }
    };
    let names = names
        .into_iter()
        .map(|n| {
            let d = v.lookup(&format!("{path}/{n}")).map(|i| v.inodes[i].dir).unwrap_or(false);
            (n, d)
        })
        .collect();
    Box::into_raw(Box::new(VDir { magic: DIRMAGIC, fd, names, pos: 0, ent: core::mem::zeroed() })) as *mut DIR
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    if !sim() || passthrough(&cs(p)) {
        return real!("opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR)(p);
    }
    let path = abs(&cs(p));
    match vfs::enter("open", &path).and_then(|k| vfs::v().open(k, &path, O_RDONLY | O_DIRECTORY, 0)) {
        Ok(fd) => vdir(&path, fd),
        Err(e) => {
            set_errno(e);
            core::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    if sim() && virt(fd) {
        let p = vfs::v().fd(fd).map(|f| f.path.clone()).unwrap_or_default();
        return vdir(&p, fd);
    }
    real!("fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR)(fd)
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    let v = d as *mut VDir;
    if sim() && (*v).magic == DIRMAGIC {
        let v = &mut *v;
        if v.pos >= v.names.len() {
            return core::ptr::null_mut();
        }
        let (n, dir) = &v.names[v.pos];
        v.pos += 1;
        v.ent.d_ino = 100 + v.pos as u64;
        v.ent.d_type = if *dir { DT_DIR } else { DT_REG };
        v.ent.d_reclen = core::mem::size_of::<dirent64>() as u16;
        let l = n.len().min(255);
        core::ptr::copy_nonoverlapping(n.as_ptr(), v.ent.d_name.as_mut_ptr() as *mut u8, l);
        v.ent.d_name[l] = 0;
        return &mut v.ent;
    }
    real!("readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64)(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    let v = d as *mut VDir;
    if sim() && (*v).magic == DIRMAGIC {
        let b = Box::from_raw(v);
        let _ = vfs::v().close(b.fd);
        return 0;
    }
    real!("closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut DIR) -> c_int {
    let v = d as *mut VDir;
    if sim() && (*v).magic == DIRMAGIC {
        return (*v).fd;
    }
    real!("dirfd", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}

// ---------------------------------------------------------------- memory
unsafe fn do_mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    if sim() {
        if let Some(e) = mem::before_mmap(l, f) {
            set_errno(e);
            return MAP_FAILED;
        }
    }
    let r = ret(sys6(SYS_mmap, a as i64, l as i64, p as i64, f as i64, fd as i64, o)) as *mut c_void;
    if sim() && r != MAP_FAILED {
        mem::after_mmap(r as usize, l, p, f);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    do_mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off64_t) -> *mut c_void {
    do_mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, l: size_t) -> c_int {
    if sim() {
        sched::point();
        mem::before_munmap(a as usize, l);
    }
    ret(sys3(SYS_munmap, a as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut c_void, l: size_t, p: c_int) -> c_int {
    if sim() {
        sched::point();
        if let Some(e) = mem::before_mprotect(a as usize, l, p) {
            set_errno(e);
            return -1;
        }
    }
    ret(sys3(SYS_mprotect, a as i64, l as i64, p as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mlock(a: *const c_void, l: size_t) -> c_int {
    if sim() {
        sched::point();
        return r0(mem::on_mlock(a as usize, l));
    }
    ret(sys3(SYS_mlock, a as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn munlock(a: *const c_void, l: size_t) -> c_int {
    if sim() {
        return 0;
    }
    ret(sys3(SYS_munlock, a as i64, l as i64, 0)) as c_int
}

/// Keeps every symbol above in the executable.
#[used]
pub static KEEP: [unsafe extern "C" fn(c_int) -> c_int; 3] = [close, fsync, dup];
