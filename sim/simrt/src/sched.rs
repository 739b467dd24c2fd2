//! The scheduler: tasks are OS threads of which exactly one runs at any time. Every
//! intercepted operation is a scheduling point at which the seeded strategy decides
//! who runs next. Time is virtual.
use crate::raw;
use crate::rng::Rng;
use core::sync::atomic::{AtomicU32, Ordering::*};
use std::cell::Cell;

pub const MAXT: usize = 48;
pub const NONE: usize = usize::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Free,
    Runnable,
    /// Waiting on a futex word (address), optionally with a deadline in virtual ns.
    Futex(usize, Option<u64>),
    /// Sleeping until the virtual time.
    Sleep(u64),
    /// Waiting for another task to end.
    Join(usize),
    /// The closure has returned; the OS thread has not been joined yet.
    Ending,
    Finished,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PhaseEnd {
    Running,
    AllDone,
    Crashed,
    Deadlock,
    StepLimit,
    Panic,
    /// A task asked the run to stop (an invariant failed in the middle of the run).
    Stopped,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Never preempt.
    Seq,
    /// Preempt with geometric gaps of the given mean.
    Rand { seed: u64, mean: u64 },
    /// Probabilistic concurrency testing: random priorities, `d` priority change
    /// points among the first `len` steps.
    Pct { seed: u64, d: u64, len: u64 },
    /// Replay of recorded decisions: at step s choose task t.
    Explicit(Vec<(u64, usize)>),
}

pub struct Task {
    pub st: St,
    go: AtomicU32,
    pub pthread: libc::pthread_t,
    pub timed_out: bool,
    pub prio: u64,
    /// The last step at which the task ran or could not run.
    last_ran: u64,
    f: Option<Box<dyn FnOnce()>>,
    /// For threads created by the code under test.
    pub user: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, usize)>,
    pub retval: usize,
    pub detached: bool,
    pub name: String,
    pub waiting_op: &'static str,
}

pub struct Sched {
    pub tasks: Vec<Task>,
    pub current: usize,
    pub end: PhaseEnd,
    ctl: AtomicU32,
    pub step: u64,
    pub phase_start_step: u64,
    pub max_steps: u64,
    /// Virtual monotonic nanoseconds.
    pub clock: u64,
    /// Offset of the wall clock from the monotonic one.
    pub wall_off: i128,
    pub tick: u64,
    pub strategy: Strategy,
    rng: Rng,
    next_preempt: u64,
    pct_points: Vec<u64>,
    pct_low: u64,
    pct_high: u64,
    last_switch: u64,
    expl_pos: usize,
    pub switches: u64,
    pub preemptions: u64,
    pub log_overflow: bool,
    pub active: bool,
    pub hash: u64,
    pub sched_hash: u64,
    pub crash_step: u64,
    pub ending: usize,
    pub trace: bool,
    pub event_cap: usize,
    pub events: Vec<String>,
    pub panic_msg: String,
    pub panic_note: String,
    pub stop_msg: String,
    /// Seeded spurious futex wakeups: one in n waits (0 = off).
    pub spurious: u64,
    pub spurious_fired: u64,
    srng: Rng,
    /// Fairness: a task that runs this long without a switch is preempted.
    pub fair: u64,
    /// From this step of a phase on, scheduling is random, with gaps of mean `fair_late`.
    pub fair_at: u64,
    pub fair_late: u64,
    next_late: u64,
    lrng: Rng,
    pub futex_waits: u64,
}

static mut SCHED: Option<Sched> = None;
thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
    static INERT: Cell<u32> = const { Cell::new(0) };
}

#[inline(always)]
pub fn me() -> usize {
    ME.with(|m| m.get())
}
#[inline(always)]
pub fn in_task() -> bool {
    me() != NONE
}
/// Runs harness code inside a task without scheduling points.
pub fn inert<R>(f: impl FnOnce() -> R) -> R {
    INERT.with(|i| i.set(i.get() + 1));
    let r = f();
    INERT.with(|i| i.set(i.get() - 1));
    r
}
pub fn is_inert() -> bool {
    INERT.with(|i| i.get()) != 0
}

#[allow(static_mut_refs)]
#[inline(always)]
pub fn s() -> &'static mut Sched {
    unsafe { SCHED.as_mut().unwrap() }
}
#[allow(static_mut_refs)]
pub fn installed() -> bool {
    unsafe { SCHED.is_some() }
}

pub fn init(strategy: Strategy, aux_seed: u64, max_steps: u64) {
    let seed = match &strategy {
        Strategy::Rand { seed, .. } | Strategy::Pct { seed, .. } => *seed,
        _ => 1,
    };
    let mut rng = Rng::new(seed ^ 0x5ced);
    let mut next_preempt = u64::MAX;
    let mut pct_points = vec![];
    match &strategy {
        Strategy::Rand { mean, .. } => next_preempt = rng.gap(*mean),
        Strategy::Pct { d, len, .. } => {
            for _ in 0..*d {
                pct_points.push(1 + rng.below((*len).max(1)));
            }
            pct_points.sort_unstable();
        }
        _ => {}
    }
    let sc = Sched {
        tasks: Vec::with_capacity(MAXT),
        current: NONE,
        end: PhaseEnd::Running,
        ctl: AtomicU32::new(0),
        step: 0,
        phase_start_step: 0,
        max_steps,
        clock: 1_000_000_000_000,
        wall_off: 1_700_000_000_000_000_000,
        tick: 50,
        strategy,
        rng,
        next_preempt,
        pct_points,
        pct_low: 1 << 40,
        pct_high: 1 << 42,
        last_switch: 0,
        expl_pos: 0,
        switches: 0,
        preemptions: 0,
        log_overflow: false,
        active: false,
        hash: 0xcbf29ce484222325,
        sched_hash: 0xcbf29ce484222325,
        crash_step: u64::MAX,
        ending: NONE,
        trace: false,
        event_cap: 4000,
        events: Vec::new(),
        panic_msg: String::new(),
        panic_note: String::new(),
        stop_msg: String::new(),
        spurious: 0,
        spurious_fired: 0,
        srng: Rng::new(aux_seed ^ 0x5b0f),
        fair: 200_000,
        fair_at: u64::MAX,
        fair_late: 60,
        next_late: 0,
        lrng: Rng::new(aux_seed ^ 0x1a7e),
        futex_waits: 0,
    };
    unsafe { SCHED = Some(sc) };
}

/// From here on the seeded strategy decides (before: run to completion in turn).
pub fn activate(on: bool) {
    let sc = s();
    if on && !sc.active {
        let base = sc.step;
        if sc.next_preempt != u64::MAX {
            let m = if let Strategy::Rand { mean, .. } = &sc.strategy { *mean } else { 1 };
            sc.next_preempt = base + sc.rng.gap(m);
        }
        for p in sc.pct_points.iter_mut() {
            *p += base;
        }
        sc.last_switch = base;
    }
    sc.active = on;
}

pub fn fnv(h: &mut u64, v: u64) {
    let mut x = v;
    for _ in 0..8 {
        *h ^= x & 0xff;
        *h = h.wrapping_mul(0x100000001b3);
        x >>= 8;
    }
}
pub fn fnv_str(h: &mut u64, v: &str) {
    for b in v.bytes() {
        *h ^= b as u64;
        *h = h.wrapping_mul(0x100000001b3);
    }
}

/// Adds a line to the run's event log (only with tracing) and to the run's fingerprint.
pub fn event(f: impl FnOnce() -> String) {
    let sc = s();
    if sc.trace && sc.events.len() < sc.event_cap {
        inert(|| {
            let l = f();
            let line = format!("[{:>6} t{} {:>10}us] {}", sc.step, me() as isize, (sc.clock - 1_000_000_000_000) / 1000, l);
            drop(l);
            sc.events.push(line);
        });
    }
}

extern "C" fn thread_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    let id = arg as usize;
    wait_go(id);
    ME.with(|m| m.set(id));
    let t = &mut s().tasks[id];
    if let Some((f, a)) = t.user.take() {
        let r = f(a as *mut libc::c_void);
        s().tasks[id].retval = r as usize;
    } else if let Some(f) = t.f.take() {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    }
    ME.with(|m| m.set(NONE));
    let sc = s();
    sc.tasks[id].st = St::Ending;
    sc.ending = id;
    wake_ctl();
    core::ptr::null_mut()
}
fn wait_go(id: usize) {
    let w = &s().tasks[id].go as *const AtomicU32;
    unsafe {
        while (*w).swap(0, SeqCst) == 0 {
            raw::futex_wait(w as *const u32, 0);
        }
    }
}
fn grant(id: usize) {
    let w = &s().tasks[id].go as *const AtomicU32;
    s().current = id;
    unsafe {
        (*w).store(1, SeqCst);
        raw::futex_wake(w as *const u32);
    }
}
fn wake_ctl() {
    let w = &s().ctl as *const AtomicU32;
    unsafe {
        (*w).store(1, SeqCst);
        raw::futex_wake(w as *const u32);
    }
}
fn wait_ctl() {
    let w = &s().ctl as *const AtomicU32;
    unsafe {
        while (*w).swap(0, SeqCst) == 0 {
            raw::futex_wait(w as *const u32, 0);
        }
    }
}

/// Creates the OS thread of a task that will run when first scheduled.
pub fn add_task(
    name: &str,
    f: Option<Box<dyn FnOnce()>>,
    user: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, usize)>,
) -> usize {
    let sc = s();
    let id = sc.tasks.len();
    assert!(id < MAXT, "too many tasks");
    let prio = (1 << 41) + sc.rng.below(1_000_000);
    sc.tasks.push(Task {
        st: St::Runnable,
        go: AtomicU32::new(0),
        pthread: 0,
        timed_out: false,
        prio,
        last_ran: sc.step,
        f,
        user,
        retval: 0,
        detached: false,
        name: name.to_string(),
        waiting_op: "",
    });
    unsafe {
        let mut attr: libc::pthread_attr_t = core::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, 2 << 20);
        let mut th: libc::pthread_t = 0;
        let r = crate::interpose::real_pthread_create(&mut th, &attr, thread_main, id as *mut libc::c_void);
        assert!(r == 0, "pthread_create failed");
        s().tasks[id].pthread = th;
    }
    id
}

/// Runs the given closures as tasks until they have all finished or the phase ends otherwise.
pub fn run_phase(fs: Vec<(String, Box<dyn FnOnce()>)>) -> PhaseEnd {
    let sc = s();
    // tasks of an earlier (crashed) phase stay frozen for ever
    for t in sc.tasks.iter_mut() {
        if t.st != St::Finished {
            t.st = St::Free;
        }
    }
    sc.end = PhaseEnd::Running;
    sc.phase_start_step = sc.step;
    sc.current = NONE;
    for (n, f) in fs {
        add_task(&n, Some(f), None);
    }
    loop {
        let sc = s();
        if sc.ending != NONE {
            let e = sc.ending;
            sc.ending = NONE;
            unsafe { crate::interpose::real_pthread_join(sc.tasks[e].pthread) };
            sc.tasks[e].st = St::Finished;
            for t in sc.tasks.iter_mut() {
                if t.st == St::Join(e) {
                    t.st = St::Runnable;
                }
            }
        }
        if sc.end != PhaseEnd::Running {
            return sc.end;
        }
        sc.step += 1;
        match pick(NONE) {
            Some(n) => {
                grant(n);
                wait_ctl();
            }
            None => {
                if sc.end == PhaseEnd::Running {
                    let live = sc.tasks.iter().any(|t| !matches!(t.st, St::Finished | St::Free));
                    sc.end = if live { PhaseEnd::Deadlock } else { PhaseEnd::AllDone };
                }
                return sc.end;
            }
        }
    }
}

/// Chooses the task to run next. `cur` is NONE when the current one cannot go on.
/// Advances the clock when only timers are left. None: nothing can run.
fn pick(cur: usize) -> Option<usize> {
    let sc = s();
    let late = sc.active && sc.step - sc.phase_start_step > sc.fair_at;
    let fair = sc.fair;
    loop {
        let mut runnable: [usize; MAXT] = [0; MAXT];
        let mut n = 0;
        let mut earliest = u64::MAX;
        let mut starved = NONE;
        let mut starved_since = 0;
        for (i, t) in sc.tasks.iter_mut().enumerate() {
            match t.st {
                St::Futex(_, Some(d)) if d <= sc.clock => {
                    t.st = St::Runnable;
                    t.timed_out = true;
                }
                St::Sleep(d) if d <= sc.clock => t.st = St::Runnable,
                St::Futex(_, Some(d)) | St::Sleep(d) => earliest = earliest.min(d),
                _ => {}
            }
            if t.st == St::Runnable {
                runnable[n] = i;
                n += 1;
                if i != cur && sc.step - t.last_ran > fair && (starved == NONE || t.last_ran < starved_since) {
                    starved = i;
                    starved_since = t.last_ran;
                }
            } else {
                t.last_ran = sc.step;
            }
        }
        if n == 0 {
            if earliest == u64::MAX {
                return None;
            }
            sc.clock = earliest;
            continue;
        }
        let r = &runnable[..n];
        let cur_ok = cur != NONE && sc.tasks[cur].st == St::Runnable;
        let choice = match &sc.strategy {
            _ if late => {
                if cur_ok && sc.step < sc.next_late {
                    cur
                } else {
                    sc.next_late = sc.step + sc.lrng.gap(sc.fair_late);
                    r[sc.lrng.below(n as u64) as usize]
                }
            }
            s if matches!(s, Strategy::Seq) || (!sc.active && !matches!(s, Strategy::Explicit(_))) => {
                if cur_ok && sc.step - sc.last_switch < fair {
                    cur
                } else {
                    next_rr(r, cur)
                }
            }
            Strategy::Rand { mean, .. } => {
                let mean = *mean;
                let unfair = sc.step - sc.last_switch >= fair;
                if starved != NONE {
                    starved
                } else if cur_ok && sc.step < sc.next_preempt && !unfair {
                    cur
                } else {
                    if sc.step >= sc.next_preempt {
                        sc.next_preempt = sc.step + sc.rng.gap(mean);
                    }
                    if cur_ok && n > 1 {
                        let k = sc.rng.below(n as u64 - 1) as usize;
                        *r.iter().filter(|x| **x != cur).nth(k).unwrap()
                    } else {
                        r[sc.rng.below(n as u64) as usize]
                    }
                }
            }
            Strategy::Pct { .. } => {
                while let Some(p) = sc.pct_points.first() {
                    if sc.step >= *p {
                        sc.pct_points.remove(0);
                        if cur_ok {
                            sc.pct_low -= 1;
                            sc.tasks[cur].prio = sc.pct_low;
                        }
                    } else {
                        break;
                    }
                }
                if cur_ok && sc.step - sc.last_switch >= fair {
                    sc.pct_low -= 1;
                    sc.tasks[cur].prio = sc.pct_low;
                }
                if starved != NONE {
                    sc.pct_high += 1;
                    sc.tasks[starved].prio = sc.pct_high;
                }
                *r.iter().max_by_key(|i| sc.tasks[**i].prio).unwrap()
            }
            Strategy::Seq => unreachable!(),
            Strategy::Explicit(v) => {
                while sc.expl_pos < v.len() && v[sc.expl_pos].0 < sc.step {
                    sc.expl_pos += 1;
                }
                let mut c = NONE;
                if sc.expl_pos < v.len() && v[sc.expl_pos].0 == sc.step {
                    c = v[sc.expl_pos].1;
                    sc.expl_pos += 1;
                }
                if c != NONE && r.contains(&c) {
                    c
                } else if starved != NONE && sc.active {
                    starved
                } else if cur_ok && sc.step - sc.last_switch < fair {
                    cur
                } else {
                    next_rr(r, cur)
                }
            }
        };
        sc.tasks[choice].last_ran = sc.step;
        if choice != cur {
            sc.last_switch = sc.step;
            sc.switches += 1;
            if cur_ok {
                sc.preemptions += 1;
            }
            fnv(&mut sc.sched_hash, sc.step);
            fnv(&mut sc.sched_hash, choice as u64);
            if !late && !crate::shm::log_switch(sc.step, choice) {
                sc.log_overflow = true;
            }
        }
        return Some(choice);
    }
}
fn next_rr(r: &[usize], cur: usize) -> usize {
    if cur != NONE {
        for x in r {
            if *x > cur {
                return *x;
            }
        }
    }
    r[0]
}

/// A scheduling point of the running task.
#[inline]
pub fn point() {
    let id = me();
    if id == NONE || is_inert() {
        return;
    }
    point_slow(id)
}
fn point_slow(id: usize) {
    let sc = s();
    if sc.end != PhaseEnd::Running {
        freeze(id);
    }
    sc.step += 1;
    sc.clock += sc.tick;
    if sc.step - sc.phase_start_step > sc.max_steps {
        finish(PhaseEnd::StepLimit);
    }
    if sc.step >= sc.crash_step {
        sc.crash_step = u64::MAX;
        finish(PhaseEnd::Crashed);
    }
    match pick(id) {
        Some(n) if n == id => {}
        Some(n) => {
            grant(n);
            wait_go(id);
            if s().end != PhaseEnd::Running {
                freeze(id);
            }
        }
        None => {}
    }
}
/// The running task gives up the processor (sched_yield): someone else runs if anyone can.
pub fn yield_now() {
    let id = me();
    if id == NONE || is_inert() {
        return;
    }
    let sc = s();
    sc.next_preempt = sc.next_preempt.min(sc.step + 1);
    if let Strategy::Pct { .. } = sc.strategy {
        sc.pct_low -= 1;
        sc.tasks[id].prio = sc.pct_low;
    }
    point_slow(id);
}
/// The running task cannot go on until its state becomes Runnable again.
fn block(id: usize) {
    let sc = s();
    sc.step += 1;
    sc.clock += sc.tick;
    match pick(NONE) {
        Some(n) if n == id => {
            sc.current = id;
        }
        Some(n) => {
            grant(n);
            wait_go(id);
            if s().end != PhaseEnd::Running {
                freeze(id);
            }
        }
        None => {
            finish(PhaseEnd::Deadlock);
        }
    }
}
fn freeze(id: usize) -> ! {
    loop {
        wait_go(id);
    }
}
/// Ends the phase: all tasks stop where they are.
pub fn finish(e: PhaseEnd) -> ! {
    let id = me();
    s().end = e;
    wake_ctl();
    freeze(id)
}
/// The running task ends here, in the middle of what it does; the others go on.
pub fn die() -> ! {
    let id = me();
    s().tasks[id].st = St::Free;
    wake_ctl();
    freeze(id)
}
pub fn stop(msg: String) -> ! {
    s().stop_msg = msg;
    finish(PhaseEnd::Stopped)
}

pub fn sleep_ns(ns: u64) {
    let id = me();
    if id == NONE {
        return;
    }
    let sc = s();
    sc.tasks[id].st = St::Sleep(sc.clock.saturating_add(ns));
    block(id);
}
/// 0 = woken, EAGAIN = value differed, ETIMEDOUT.
pub unsafe fn futex_wait(addr: *const u32, val: u32, deadline: Option<u64>) -> i32 {
    let id = me();
    point_slow(id);
    if core::ptr::read_volatile(addr) != val {
        return libc::EAGAIN;
    }
    let sc = s();
    if sc.spurious != 0 && sc.srng.below(sc.spurious) == 0 {
        sc.spurious_fired += 1;
        return libc::EINTR;
    }
    sc.futex_waits += 1;
    sc.tasks[id].timed_out = false;
    sc.tasks[id].st = St::Futex(addr as usize, deadline);
    block(id);
    if s().tasks[id].timed_out {
        libc::ETIMEDOUT
    } else {
        0
    }
}
pub unsafe fn futex_wake(addr: *const u32, n: u32) -> i64 {
    let sc = s();
    let mut k = 0;
    let len = sc.tasks.len();
    // which waiter is woken is not specified by the kernel: seeded choice
    let off = if len > 1 && n == 1 { sc.srng.below(len as u64) as usize } else { 0 };
    for i in 0..len {
        if k >= n {
            break;
        }
        let t = &mut sc.tasks[(i + off) % len];
        if let St::Futex(a, _) = t.st {
            if a == addr as usize {
                t.st = St::Runnable;
                t.timed_out = false;
                k += 1;
            }
        }
    }
    point();
    k as i64
}
pub fn join(target: usize) -> usize {
    let id = me();
    point();
    let sc = s();
    if sc.tasks[target].st != St::Finished {
        sc.tasks[id].st = St::Join(target);
        block(id);
    }
    s().tasks[target].retval
}
/// Wall clock (ns since the epoch), as the code under test sees it.
pub fn wall_ns() -> i128 {
    let sc = s();
    sc.clock as i128 + sc.wall_off
}
pub fn blocked_summary() -> String {
    let mut o = String::new();
    for (i, t) in s().tasks.iter().enumerate() {
        match t.st {
            St::Free | St::Finished => {}
            st => {
                let st = match st {
                    St::Futex(..) => "lock".to_string(),
                    x => format!("{:?}", x),
                };
                o.push_str(&format!("{}({}) waits for {} in {}; ", t.name, i, st, t.waiting_op))
            }
        }
    }
    o
}
