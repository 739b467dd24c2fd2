//! C11, C12, C19: keys split over two shards, file-backed memory, guarded memory.
use crate::client::*;
use crate::fw::*;
use crate::persist::*;
use crate::w::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::file_memory::FileMemory;
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use runtime::memories::ram_memory::RamMemory;
use simrt::sched::PhaseEnd;
use simrt::{mem, sched, vfs, Rng, Sh};
use std::sync::Arc;
use zeroize::Zeroize;

/// A key in memory split over files and RAM: allocate, unlock, refresh, clone, drop.
pub fn ncfile(cfg: i64, key: i64, what: i64) -> Res {
    let k = sched::inert(|| key_bytes(key));
    let m = match NonContiguousMemory::alloc(&k, 32, nc_config(cfg)) {
        Ok(m) => m,
        Err(e) => return Res::Err(format!("{e:?}")),
    };
    match what {
        0 => nc_read(&m),
        1 => match m.refresh() {
            Ok(()) => nc_read(&m),
            Err(e) => Res::Err(format!("{e:?}")),
        },
        _ => Res::Ok,
    }
}
pub fn nc_config(cfg: i64) -> NCConfig {
    match cfg {
        0 => NCConfig::FullFile,
        1 => NCConfig::RamAndFile,
        _ => NCConfig::FullRam,
    }
}
pub fn nc_read(m: &NonContiguousMemory) -> Res {
    match m.unlock() {
        Ok(b) => {
            let g = b.borrow();
            let v = sched::inert(|| (0..40).find(|k| key_bytes(*k)[..] == g[..]));
            match v {
                Some(k) => Res::Val(k),
                None => Res::Bad("bytes that were never stored".into()),
            }
        }
        Err(e) => Res::Err(format!("{e:?}")),
    }
}
/// Plain file-backed memory.
pub fn fmem(x: i64, what: i64) -> Res {
    let s = sched::inert(|| secret(x));
    let m = match FileMemory::alloc(&s, s.len()) {
        Ok(m) => m,
        Err(e) => return Res::Err(format!("{e:?}")),
    };
    if what == 0 {
        return Res::Ok;
    }
    match m.unlock() {
        Ok(b) => {
            let g = b.borrow();
            let same = sched::inert(|| g[..] == s[..]);
            if same {
                Res::Val(x)
            } else {
                Res::Bad("other bytes".into())
            }
        }
        Err(e) => Res::Err(format!("{e:?}")),
    }
}

// ---------------------------------------------------------------- C12: guarded buffers
/// Borrows of a shared buffer: `maybe` counts from before the call that makes one until after the
/// one that ends it, `sure` from after the first until before the second.
#[derive(Default, Clone, Copy)]
struct Count {
    maybe: i64,
    sure: i64,
}
struct Guarded {
    b: Buffer<u8>,
    addr: usize,
    x: i64,
}
struct GUser {
    shared: Arc<Vec<Guarded>>,
    counts: Sh<Vec<Count>>,
    own: Vec<Guarded>,
}
fn gval(b: &[u8]) -> Res {
    sched::inert(|| match (0..NVAL).find(|x| secret(*x)[..] == *b) {
        Some(x) => Res::Val(x),
        None => Res::Bad(format!("{} other bytes", b.len())),
    })
}
const NONE: i32 = libc::PROT_NONE;
const RO: i32 = libc::PROT_READ;
const RW: i32 = libc::PROT_READ | libc::PROT_WRITE;
fn stop(sig: &str, msg: String) -> ! {
    sched::s().stop_msg = format!("{sig}|{msg}");
    sched::finish(PhaseEnd::Stopped);
    unreachable!()
}
fn want_prot(addr: usize, want: &[i32], what: &str) {
    let got = mem::prot_at(addr);
    if !got.map(|g| want.contains(&g)).unwrap_or(false) {
        stop(&format!("guard:{what}"), format!("the pages of a buffer have protection {got:?} instead of {want:?} {what}"));
    }
}
impl GUser {
    // (each of these is one step: no other task runs in between)
    fn begin(&self, i: usize) {
        self.counts.with(|c| c[i].maybe += 1);
    }
    fn begun(&self, i: usize) {
        self.counts.with(|c| {
            c[i].sure += 1;
            want_prot(self.shared[i].addr, &[RO], "while it is borrowed")
        });
    }
    fn ending(&self, i: usize) {
        self.counts.with(|c| {
            want_prot(self.shared[i].addr, &[RO], "while it is borrowed");
            c[i].sure -= 1
        });
    }
    fn end(&self, i: usize) {
        self.counts.with(|c| {
            c[i].maybe -= 1;
            if c[i].maybe == 0 {
                want_prot(self.shared[i].addr, &[NONE], "although nothing borrows it");
            } else if c[i].sure > 0 {
                want_prot(self.shared[i].addr, &[RO], "while it is borrowed");
            }
        });
    }
    fn adopt(&mut self, b: Buffer<u8>, x: i64) {
        let addr = {
            let g = b.borrow();
            g.as_ptr() as usize
        };
        want_prot(addr, &[NONE], "although nothing borrows it");
        if mem::locked_at(addr) == Some(false) && mem::m().mlock_failed == 0 {
            stop("guard:not-locked", "the pages of a buffer are not locked into memory".into());
        }
        if self.own.iter().chain(self.shared.iter()).any(|g| g.addr == addr && g.b.len() > 0) {
            stop("guard:shared-pages", "two buffers share their pages".into());
        }
        self.own.push(Guarded { b, addr, x });
    }
    fn exec(&mut self, op: &Op) -> (Res, Option<Res>) {
        let i = op.n(0) as usize % self.shared.len();
        match op.k.as_str() {
            // borrow, look at it n times while others run, perhaps with borrows of the borrow
            "borrow" => {
                let g = &self.shared[i];
                self.begin(i);
                let r = g.b.borrow();
                self.begun(i);
                let mut more = vec![];
                for _ in 0..op.n(1) {
                    sched::point();
                    if op.n(2) > 0 {
                        self.begin(i);
                        more.push(r.clone());
                        self.begun(i);
                    }
                }
                let v = gval(&r);
                let same = more.iter().all(|m| *m == r);
                if op.n(2) == 2 {
                    self.ending(i);
                    drop(r);
                    self.end(i);
                    for m in more {
                        sched::point();
                        self.ending(i);
                        drop(m);
                        self.end(i);
                    }
                } else {
                    for m in more {
                        self.ending(i);
                        drop(m);
                        self.end(i);
                    }
                    sched::point();
                    self.ending(i);
                    drop(r);
                    self.end(i);
                }
                (if same { v } else { Res::Bad("clones of a borrow differ".into()) }, Some(Res::Val(g.x)))
            }
            "eq" => {
                let j = op.n(1) as usize % self.shared.len();
                self.begin(i);
                self.begin(j);
                let e = self.shared[i].b == self.shared[j].b;
                self.end(i);
                self.end(j);
                (Res::Bool(e), Some(Res::Bool(self.shared[i].x == self.shared[j].x)))
            }
            "clone" => {
                self.begin(i);
                let c = self.shared[i].b.clone();
                self.end(i);
                let x = self.shared[i].x;
                self.adopt(c, x);
                (Res::Ok, Some(Res::Ok))
            }
            "ser" => {
                self.begin(i);
                let b = bincode::serialize(&self.shared[i].b);
                self.end(i);
                match b.map_err(|e| e.to_string()).and_then(|b| bincode::deserialize::<Buffer<u8>>(&b).map_err(|e| e.to_string())) {
                    Ok(c) => {
                        let x = self.shared[i].x;
                        self.adopt(c, x);
                        (Res::Ok, Some(Res::Ok))
                    }
                    Err(e) => (Res::Err(e), Some(Res::Ok)),
                }
            }
            "new" => {
                let x = op.n(1);
                let mut s = sched::inert(|| secret(x));
                let b = match op.n(0) % 3 {
                    0 => Buffer::alloc(&s, s.len()),
                    1 => {
                        let b = Buffer::from(&mut s[..]);
                        if s.iter().any(|c| *c != 0) {
                            return (Res::Bad("the source of a buffer was not erased".into()), Some(Res::Ok));
                        }
                        b
                    }
                    _ => {
                        let m = RamMemory::alloc(&s, s.len()).expect("not empty");
                        match m.unlock() {
                            Ok(b) => b,
                            Err(e) => return (Res::Err(format!("{e:?}")), Some(Res::Ok)),
                        }
                    }
                };
                self.adopt(b, x);
                (Res::Ok, Some(Res::Ok))
            }
            "borrowmut" | "own" | "erase" | "drop" if self.own.is_empty() => (Res::Skip, None),
            "borrowmut" => {
                let n = i % self.own.len();
                let g = &mut self.own[n];
                if g.x < 0 {
                    return (Res::Skip, None);
                }
                let addr = g.addr;
                let mut m = g.b.borrow_mut();
                want_prot(addr, &[RW], "while it is borrowed for writing");
                let v = gval(&m);
                sched::point();
                // flip and restore
                m[0] ^= 0x55;
                sched::point();
                m[0] ^= 0x55;
                want_prot(addr, &[RW], "while it is borrowed for writing");
                drop(m);
                want_prot(addr, &[NONE], "although nothing borrows it");
                (v, Some(Res::Val(g.x)))
            }
            "own" => {
                let n = i % self.own.len();
                let g = &self.own[n];
                if g.x < 0 {
                    return (Res::Skip, None);
                }
                let r = g.b.borrow();
                want_prot(g.addr, &[RO], "while it is borrowed");
                let v = gval(&r);
                drop(r);
                want_prot(g.addr, &[NONE], "although nothing borrows it");
                (v, Some(Res::Val(g.x)))
            }
            "erase" => {
                let n = i % self.own.len();
                let g = &mut self.own[n];
                g.b.zeroize();
                want_prot(g.addr, &[NONE], "after it was erased");
                let x = g.x;
                g.x = -1;
                let left = x >= 0 && mem::region_has(g.addr, &sched::inert(|| secret(x))) == Some(true);
                if left {
                    stop("guard:not-erased", "an erased buffer still holds its bytes".into());
                }
                (if g.b.is_empty() { Res::Ok } else { Res::Bad("an erased buffer has a length".into()) }, Some(Res::Ok))
            }
            "drop" => {
                let n = i % self.own.len();
                let g = self.own.remove(n);
                let (a, x) = (g.addr, g.x);
                drop(g);
                if x >= 0 && mem::region_has(a, &sched::inert(|| secret(x))) == Some(true) {
                    stop("guard:not-erased", "a dropped buffer still holds its bytes".into());
                }
                (Res::Ok, None)
            }
            k => panic!("harness: unknown operation {k}"),
        }
    }
}
/// Switches on the plan's failures of memory calls.
pub fn mem_faults(plan: &Plan) {
    let m = mem::m();
    m.mlock_fail = plan.c("mlock") as u64;
    if plan.c("mmap") > 0 {
        m.mmap_fail_nth = m.mapped + plan.c("mmap") as u64;
    }
    if plan.c("mprotect") > 0 {
        m.mprotect_fail_nth = m.protects + plan.c("mprotect") as u64;
    }
}
/// Switches them off; true: a call failed that the program cannot do without.
pub fn mem_faults_end() -> bool {
    let m = mem::m();
    m.mlock_fail = 0;
    m.mmap_fail_nth = u64::MAX;
    m.mprotect_fail_nth = u64::MAX;
    m.mmap_failed + m.mprotect_failed > 0
}

pub struct GuardS;
impl Scenario for GuardS {
    fn property(&self) -> &'static str {
        "C12"
    }
    fn name(&self) -> &'static str {
        "guarded-buffers"
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn real(&self) -> &'static str {
        "runtime (boxed and buffer memory, RAM memory) as compiled from /repo with libsodium; mmap, mprotect, mlock and munmap are observed and made to fail"
    }
    fn rule(&self) -> &'static str {
        "2-4 users borrow 1-2 shared buffers (nested, cloned borrows released in any order), compare, clone and serialise them and make, borrow for writing, erase and drop buffers of their own; at every step the page protection must be that of the borrows that exist"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C12", "guarded-buffers", r.next() >> 1);
        let ns = 1 + r.below(2);
        for _ in 0..ns {
            p.setup.push(op("new", &[r.below(3) as i64, r.below(12) as i64]));
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(6) {
                let i = r.below(4) as i64;
                v.push(match r.weighted(&[40, 8, 8, 4, 6, 8, 4, 4, 6]) {
                    0 => op("borrow", &[i, r.below(3) as i64, r.below(3) as i64]),
                    1 => op("eq", &[i, r.below(2) as i64]),
                    2 => op("clone", &[i]),
                    3 => op("ser", &[i]),
                    4 => op("new", &[r.below(3) as i64, r.below(20) as i64]),
                    5 => op("borrowmut", &[i]),
                    6 => op("own", &[i]),
                    7 => op("erase", &[i]),
                    _ => op("drop", &[i]),
                });
            }
            p.threads.push(v);
        }
        match r.below(8) {
            0 => {
                p.cfg.insert("mlock".into(), 1 + r.below(3) as i64);
            }
            1 => {
                p.cfg.insert("mmap".into(), r.below(12) as i64);
            }
            2 => {
                p.cfg.insert("mprotect".into(), r.below(40) as i64 + 1);
            }
            _ => {}
        }
        p.mem_points = r.chance(1, 3);
        p.sched = gen_sched(r, 300);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        for x in 0..20 {
            mem::m().needles.push((format!("secret {x}"), secret(x)));
        }
        let setup = plan.setup.clone();
        let Some(shared) = cx.solo("new", move || {
            let mut u = GUser { shared: Arc::new(vec![]), counts: Sh::new(vec![]), own: vec![] };
            for o in &setup {
                let s = sched::inert(|| secret(o.n(1)));
                u.adopt(Buffer::alloc(&s, s.len()), o.n(1));
            }
            std::mem::take(&mut u.own)
        }) else {
            return;
        };
        let counts = Sh::new(vec![Count::default(); shared.len()]);
        let shared = Arc::new(shared);
        let hist: Hist<(Res, Option<Res>)> = Hist::new();
        let t = plan
            .threads
            .iter()
            .enumerate()
            .filter(|(_, o)| !o.is_empty())
            .map(|(i, ops)| {
                let (h, ops) = (hist.clone(), ops.clone());
                let mut u = GUser { shared: shared.clone(), counts: counts.clone(), own: vec![] };
                let f: TaskFn = Box::new(move || {
                    for (j, o) in ops.iter().enumerate() {
                        h.run(i, j, o, || u.exec(o));
                    }
                });
                (format!("user{i}"), f)
            })
            .collect();
        mem_faults(plan);
        sched::activate(true);
        let e = cx.phase_raw(t);
        sched::activate(false);
        let failed = mem_faults_end();
        cx.sample = hist.lines();
        for h in hist.all() {
            let Some((got, want)) = &h.res else { continue };
            if matches!(h.op.k.as_str(), "borrow") {
                cx.count("nontrivial");
            }
            if matches!(got, Res::Bad(_)) || want.as_ref().map(|w| w != got).unwrap_or(false) {
                cx.violate("guard:result", format!("{} gave {got:?} instead of {want:?}", h.op.s()));
            }
        }
        match e {
            PhaseEnd::AllDone => {}
            PhaseEnd::Stopped => {
                let m = sched::s().stop_msg.clone();
                let (s, m) = m.split_once('|').unwrap_or(("invariant", &m));
                cx.violate(s, m.into());
                return;
            }
            PhaseEnd::Panic if failed => {
                cx.count("aborted_by_fault");
                return;
            }
            _ => {
                cx.violate("guard:stopped", format!("{e:?} {} {}", sched::s().panic_msg, sched::blocked_summary()));
                return;
            }
        }
        if let Some(n) = mem::readable_secrets().first() {
            cx.violate("guard:readable", format!("{n} is readable although nothing borrows it"));
        }
        if mem::open_regions() > 0 {
            cx.violate("guard:open", "a guarded region is accessible although nothing borrows it".into());
        }
        cx.solo("drop", move || drop(shared));
        if let Some(l) = mem::m().leaks.first().cloned() {
            cx.violate("guard:leak", l);
        }
    }
}

/// Client operations under faults: afterwards no guarded page is open and none was released dirty.
pub struct ClientGuards;
impl Scenario for ClientGuards {
    fn property(&self) -> &'static str {
        "C12"
    }
    fn name(&self) -> &'static str {
        "client-guards"
    }
    fn quick_runs(&self) -> u64 {
        14000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk; memory calls are observed and made to fail"
    }
    fn rule(&self) -> &'static str {
        "2-3 users write, use, copy, revoke and delete secrets, make failing calls, commit and load (with disk, random and memory faults); when all calls have returned no guarded page is accessible, no secret is readable, and no region was released with a secret in it; when everything is dropped no guarded region is left"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C12", "client-guards", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        d.setup(r, &mut p, &mut x, 5);
        let nt = 1 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(5) {
                let c = r.below(d.nc as u64) as i64;
                v.push(match r.weighted(&[50, 10, 8, 8, 4, 6, 4, 4]) {
                    0 => gen_vault_op(r, c, d.nv, d.nr, &mut x),
                    1 => op("commit", &[0, 7]),
                    2 => op("loads", &[0, *r.pick(&[7, 7, 3])]),
                    3 => op("loadf", &[c, 0, *r.pick(&[7, 7, 3])]),
                    4 => op("unload", &[c]),
                    5 => op("setkey", &[3, 0]),
                    6 => op("commitk", &[0]),
                    _ => op("clear", &[]),
                });
            }
            p.threads.push(v);
        }
        match r.below(8) {
            0 => {
                p.cfg.insert("mlock".into(), 1 + r.below(3) as i64);
            }
            1 => p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(12), err: "EIO".into(), count: 1 + r.below(30) }),
            2 | 3 => p.faults.push(FaultSpec { cls: "any".into(), nth: r.below(10), err: r.pick(&["EIO", "ENOSPC", "short"]).to_string(), count: 1 + r.below(3) }),
            _ => {}
        }
        p.mem_points = r.chance(1, 8);
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 3000) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        for x in 0..NVAL {
            mem::m().needles.push((format!("secret {x}"), secret(x)));
        }
        for k in [3, 7] {
            mem::m().needles.push((format!("snapshot key {k}"), key_bytes(k)));
        }
        let hist: Hist<Res> = Hist::new();
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            let t = tasks(&hist, &s, &plan.threads, 1);
            mem_faults(plan);
            sched::activate(true);
            cx.arm();
            let e = cx.phase_raw(t);
            cx.disarm();
            sched::activate(false);
            mem_faults_end();
            cx.sample = hist.lines();
            if e == PhaseEnd::Panic && vfs::v().fired.keys().any(|k| k.starts_with("rand:E")) {
                cx.count("aborted_by_fault");
                return None;
            }
            if e != PhaseEnd::AllDone {
                cx.violate("guards:stopped", format!("{e:?} {} {}", sched::s().panic_msg, sched::blocked_summary()));
                return None;
            }
            if hist.all().iter().any(|h| matches!(h.res, Some(Res::Val(_) | Res::Ok))) {
                cx.count("nontrivial");
            }
            if let Some(n) = mem::readable_secrets().first() {
                cx.violate("guards:readable", format!("{n} is readable although every call has returned"));
            }
            if mem::open_regions() > 0 {
                cx.violate("guards:open", "a guarded region is accessible although every call has returned".into());
            }
            cx.solo("drop", move || drop(s))?;
            if let Some(l) = mem::m().leaks.first().cloned() {
                cx.violate("guards:leak", l);
            }
            if let Some((n, _)) = mem::guarded_secrets().iter().next() {
                cx.violate("guards:left", format!("{n} is still in memory although everything was dropped"));
            }
            Some(())
        })();
    }
}
