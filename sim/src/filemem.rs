//! C19: file-backed secret memory.
use crate::fw::*;
use crate::memory::*;
use crate::w::*;
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::file_memory::FileMemory;
use runtime::memories::noncontiguous_memory::NonContiguousMemory;
use simrt::sched::PhaseEnd;
use simrt::{mem, sched, vfs, Rng, Sh};
use std::collections::BTreeMap;
use std::sync::Arc;
use zeroize::Zeroize;

const DIR: &str = "/.locked_memories/";

enum M {
    F(FileMemory),
    N(NonContiguousMemory),
}
#[derive(Clone)]
struct Slot {
    m: Arc<M>,
    want: Arc<Vec<u8>>,
    files: usize,
}
type Slots = Sh<BTreeMap<i64, Slot>>;

/// kind 0: files only, 1: RAM and file, 2: RAM only, 3: a plain file memory
fn bytes(kind: i64, x: i64) -> Vec<u8> {
    if kind == 3 && x >= 26 {
        // long and without any variety of its own
        vec![0x41 + x as u8; 300 + (x as usize - 26) * 250]
    } else if kind == 3 {
        let mut s = secret(x);
        // short ones, too
        if x % 11 == 10 {
            s.truncate(1 + (x % 7) as usize);
        }
        s
    } else {
        key_bytes(x)
    }
}
fn nfiles(kind: i64) -> usize {
    match kind {
        0 => 2,
        1 | 3 => 1,
        _ => 0,
    }
}
fn make(kind: i64, b: &[u8]) -> Result<M, String> {
    if kind == 3 {
        FileMemory::alloc(b, b.len()).map(M::F).map_err(|e| format!("{e:?}"))
    } else {
        NonContiguousMemory::alloc(b, 32, nc_config(kind)).map(M::N).map_err(|e| format!("{e:?}"))
    }
}
fn look(m: &M, want: &[u8]) -> Res {
    let b = match m {
        M::F(f) => f.unlock(),
        M::N(n) => n.unlock(),
    };
    match b {
        Ok(b) => {
            let g = b.borrow();
            if sched::inert(|| g[..] == *want) {
                Res::Ok
            } else {
                Res::Bad(format!("{} other bytes", g.len()))
            }
        }
        Err(e) => Res::Err(format!("{e:?}")),
    }
}
fn exec(slots: &Slots, op: &Op) -> Res {
    let i = op.n(0);
    let get = |i: i64| slots.with(|s| s.get(&i).cloned());
    let put = |i: i64, m: M, want: Vec<u8>, files: usize| {
        let old = slots.with(|s| s.insert(i, Slot { m: Arc::new(m), want: Arc::new(want), files }));
        drop(old);
    };
    // the only handle, if nobody else is using the memory
    let take = |i: i64| -> Option<(M, Arc<Vec<u8>>, usize)> {
        let s = slots.with(|s| match s.get(&i) {
            Some(x) if Arc::strong_count(&x.m) == 1 => s.remove(&i),
            _ => None,
        })?;
        let Slot { m, want, files } = s;
        Some((Arc::try_unwrap(m).ok().expect("harness: one handle"), want, files))
    };
    match op.k.as_str() {
        "alloc" => {
            let (kind, x) = (op.n(1), op.n(2));
            let b = sched::inert(|| bytes(kind, x));
            match make(kind, &b) {
                Ok(m) => {
                    put(i, m, b, nfiles(kind));
                    Res::Ok
                }
                Err(e) => Res::Err(e),
            }
        }
        "unlock" => match get(i) {
            Some(s) => look(&s.m, &s.want),
            None => Res::Skip,
        },
        "refresh" => match get(i) {
            Some(s) => match &*s.m {
                M::N(n) => match n.refresh() {
                    Ok(()) => Res::Ok,
                    Err(e) => Res::Err(format!("{e:?}")),
                },
                _ => Res::Skip,
            },
            None => Res::Skip,
        },
        "clone" => match get(i) {
            Some(s) => {
                let m = match &*s.m {
                    M::F(f) => M::F(f.clone()),
                    M::N(n) => M::N(n.clone()),
                };
                put(op.n(1), m, s.want.to_vec(), s.files);
                Res::Ok
            }
            None => Res::Skip,
        },
        "ser" => match get(i) {
            Some(s) => {
                let b = match &*s.m {
                    M::F(f) => bincode::serialize(f),
                    M::N(n) => bincode::serialize(n),
                };
                let m = b.and_then(|b| match &*s.m {
                    M::F(_) => bincode::deserialize::<FileMemory>(&b).map(M::F),
                    M::N(_) => bincode::deserialize::<NonContiguousMemory>(&b).map(M::N),
                });
                match m {
                    Ok(m) => {
                        let files = matches!(m, M::F(_)) as usize;
                        put(op.n(1), m, s.want.to_vec(), files);
                        Res::Ok
                    }
                    Err(e) => Res::Err(e.to_string()),
                }
            }
            None => Res::Skip,
        },
        "update" => match take(i) {
            Some((m, old, files)) => {
                let kind = match (&m, files) {
                    (M::F(_), _) => 3,
                    (_, 2) => 0,
                    (_, 1) => 1,
                    _ => 2,
                };
                let b = sched::inert(|| bytes(kind, op.n(2)));
                drop(old);
                let r = match m {
                    M::F(f) => f.update(Buffer::alloc(&b, b.len()), b.len()).map(M::F),
                    M::N(n) => n.update(Buffer::alloc(&b, 32), 32).map(M::N),
                };
                match r {
                    Ok(m) => {
                        put(i, m, b, files);
                        Res::Ok
                    }
                    Err(e) => Res::Err(format!("{e:?}")),
                }
            }
            None => Res::Skip,
        },
        "zeroize" => match take(i) {
            Some((mut m, want, _)) => {
                match &mut m {
                    M::F(f) => f.zeroize(),
                    M::N(n) => n.zeroize(),
                }
                match look(&m, &want) {
                    Res::Err(_) => Res::Ok,
                    Res::Ok => Res::Bad("the erased bytes".into()),
                    r => r,
                }
            }
            None => Res::Skip,
        },
        "drop" => {
            let s = slots.with(|s| s.remove(&i));
            match s {
                Some(s) => {
                    drop(s);
                    Res::Ok
                }
                None => Res::Skip,
            }
        }
        k => panic!("harness: unknown operation {k}"),
    }
}
fn files() -> Vec<(String, u32, Vec<u8>)> {
    let v = vfs::v();
    v.files()
        .into_iter()
        .filter(|f| f.contains(DIR))
        .map(|f| {
            let i = v.lookup(&f).expect("listed");
            (f, v.inodes[i].mode, v.inodes[i].data.clone())
        })
        .collect()
}
fn hit(path: &str, cls: &[&str]) -> bool {
    vfs::v().hits.iter().any(|(c, p)| p.contains(path) && cls.contains(&c.as_str()))
}
fn nhits() -> usize {
    vfs::v().hits.len() + mem::m().mmap_failed as usize
}
/// What must hold of the files whenever no call is in progress.
fn check_files(slots: &Slots, extra: usize) -> Option<(String, String)> {
    let live: usize = slots.with(|s| s.values().map(|s| s.files).sum());
    let fs = files();
    let stuck = fs.iter().filter(|f| hit(&f.0, &["unlink"])).count();
    if fs.len() > live + stuck + extra {
        let names: Vec<&String> = fs.iter().map(|f| &f.0).collect();
        return Some(("file:left".into(), format!("{} files exist for {live} that are in use: {names:?}", fs.len())));
    }
    if fs.len() < live {
        return Some(("file:missing".into(), format!("{} files exist instead of {live}", fs.len())));
    }
    for (p, m, _) in &fs {
        if m & 0o777 != 0 && !hit(p, &["chmod", "stat", "unlink"]) {
            return Some(("file:unlocked".into(), format!("{p} has mode {m:o} although no call is using it")));
        }
    }
    let v = vfs::v();
    for r in &v.removed {
        if hit(&r.path, &["open", "write", "chmod", "stat", "fsync", "trunc"]) {
            continue;
        }
        let w = &r.wrote;
        if let Some(k) = w.iter().position(|w| w.0 < 2 && w.2 != 0) {
            return Some(("file:not-overwritten".into(), format!("{} was removed but byte {k} of {} had not been overwritten", r.path, w.len())));
        }
        if w.len() >= 8 && w.windows(8).any(|w| w.iter().all(|w| w.1 == w.2) && w.iter().any(|w| w.1 != 0)) {
            return Some(("file:not-overwritten".into(), format!("{} was removed with its old content", r.path)));
        }
    }
    if let Some(e) = v.exposed.first() {
        return Some(("file:exposed".into(), e.clone()));
    }
    None
}

pub struct FileMem;
impl Scenario for FileMem {
    fn property(&self) -> &'static str {
        "C19"
    }
    fn name(&self) -> &'static str {
        "file-memory"
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn real(&self) -> &'static str {
        "runtime (file memory, RAM memory, non-contiguous memory, buffers) as compiled from /repo; simulated disk with permission bits, as an ordinary user"
    }
    fn rule(&self) -> &'static str {
        "1-4 users allocate, unlock, refresh, clone, serialise, update, erase and drop file-backed and mixed memory, shared and their own, while disk calls fail; every unlock gives the stored bytes (an error only if a disk call failed meanwhile), files are locked when not in use, never hold the bytes in the clear, never hold data while others may read them, are overwritten and removed when their memory goes, and none is left behind"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C19", "file-memory", r.next() >> 1);
        let ns = 1 + r.below(3) as i64;
        let mut x = r.below(30) as i64;
        for i in 0..ns {
            // often the same bytes twice
            if r.chance(2, 3) {
                x = r.below(30) as i64;
            }
            p.setup.push(op("alloc", &[i, *r.pick(&[0, 0, 1, 1, 3, 3, 3, 2]), x]));
        }
        let nt = 1 + r.below(4);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(7) {
                let i = r.below(ns as u64 + 1) as i64;
                let j = r.below(ns as u64 + 3) as i64;
                v.push(match r.weighted(&[40, 16, 10, 6, 8, 6, 8, 12]) {
                    0 => op("unlock", &[i]),
                    1 => op("refresh", &[i]),
                    2 => op("clone", &[i, j]),
                    3 => op("ser", &[i, j]),
                    4 => op("update", &[j, 0, r.below(30) as i64]),
                    5 => op("zeroize", &[j]),
                    6 => op("drop", &[j]),
                    _ => op("alloc", &[j, *r.pick(&[0, 1, 3, 3]), r.below(30) as i64]),
                });
            }
            p.threads.push(v);
        }
        if r.chance(2, 3) {
            for _ in 0..1 + r.below(2) {
                let cls = r.pick(&["any", "any", "open", "read", "write", "chmod", "stat", "mkdir", "unlink"]).to_string();
                let err = if cls == "read" || cls == "write" {
                    r.pick(&["EIO", "EINTR", "short", "ENOSPC", "amb"]).to_string()
                } else {
                    r.pick(&["EIO", "ENOSPC", "EMFILE", "EINTR", "EACCES"]).to_string()
                };
                let err = if cls == "read" && err == "amb" { "EIO".into() } else { err };
                p.faults.push(FaultSpec { cls, nth: r.below(16), err, count: 1 + r.below(3) * r.below(3) });
            }
        }
        if r.chance(1, 12) {
            p.cfg.insert("fds".into(), r.below(3) as i64 + 1);
        }
        p.mem_points = r.chance(1, 6);
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 600) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        vfs::v().watch = Some(DIR.into());
        for x in 0..30 {
            for kind in [0, 3] {
                let b = bytes(kind, x);
                if b.len() >= 8 {
                    // any part of it
                    for (j, c) in b.chunks_exact(8).enumerate().take(8) {
                        vfs::v().needles.push((format!("bytes {x} (part {j})"), c.to_vec()));
                    }
                }
            }
        }
        let slots: Slots = Sh::new(BTreeMap::new());
        let hist: Hist<Res> = Hist::new();
        // (number of disk faults before and after) per operation
        let span: Sh<BTreeMap<(usize, usize), (usize, usize)>> = Sh::new(BTreeMap::new());
        let alone = plan.threads.iter().filter(|t| !t.is_empty()).count() <= 1;
        let body = |task: usize, ops: Vec<Op>| -> TaskFn {
            let (slots, hist, span) = (slots.clone(), hist.clone(), span.clone());
            Box::new(move || {
                for (j, o) in ops.iter().enumerate() {
                    let a = nhits();
                    hist.run(task, j, o, || exec(&slots, o));
                    span.with(|s| s.insert((task, j), (a, nhits())));
                    if alone || task == 0 {
                        if let Some((s, m)) = sched::inert(|| check_files(&slots, 0)) {
                            sched::s().stop_msg = format!("{s}|{m} (after {})", o.s());
                            sched::finish(PhaseEnd::Stopped);
                        }
                    }
                }
            })
        };
        let judge = |cx: &mut Cx, hist: &Hist<Res>| {
            for h in hist.all() {
                let Some(got) = &h.res else { continue };
                let (a, b) = span.with(|s| s.get(&(h.task, h.idx)).copied()).unwrap_or((0, 0));
                match got {
                    Res::Bad(m) => cx.violate("file:wrong-bytes", format!("{} gave {m}", h.op.s())),
                    Res::Err(m) if a == b && plan.c("fds") == 0 => cx.violate("file:refused", format!("{} failed although no disk call did: {m}", h.op.s())),
                    Res::Ok if h.op.k == "unlock" => cx.count("nontrivial"),
                    Res::Err(_) => cx.count("reported_errors"),
                    _ => {}
                }
            }
        };
        let e = cx.phase(vec![("setup".into(), body(0, plan.setup.clone()))]);
        if e != PhaseEnd::AllDone {
            return;
        }
        judge(cx, &hist);
        let t: Vec<(String, TaskFn)> =
            plan.threads.iter().enumerate().filter(|(_, o)| !o.is_empty()).map(|(i, ops)| (format!("user{i}"), body(i + 1, ops.clone()))).collect();
        cx.arm();
        if plan.c("fds") > 0 {
            vfs::v().fd_limit = plan.c("fds") as usize;
        }
        sched::activate(true);
        let e = cx.phase_raw(t);
        sched::activate(false);
        vfs::v().fd_limit = 1024;
        cx.disarm();
        cx.sample = hist.lines();
        match e {
            PhaseEnd::AllDone => {}
            PhaseEnd::Stopped => {
                let m = sched::s().stop_msg.clone();
                let (s, m) = m.split_once('|').unwrap_or(("invariant", &m));
                cx.violate(s, m.into());
                return;
            }
            // copying cannot report an error
            PhaseEnd::Panic if (nhits() > 0 || plan.c("fds") > 0) && hist.all().iter().any(|h| h.res.is_none() && h.op.k == "clone") => {
                cx.count("aborted_by_fault");
                if alone {
                    // (aborting while the second file is copied leaves the copy of the first)
                    let of = hist.all().iter().find(|h| h.res.is_none()).map(|h| h.op.n(0)).unwrap_or(-1);
                    let extra = slots.with(|s| s.get(&of).map(|s| s.files.saturating_sub(1)).unwrap_or(0));
                    if let Some((s, m)) = check_files(&slots, extra) {
                        cx.violate(&s, format!("{m} (after a copy failed)"));
                    }
                }
                return;
            }
            _ => {
                cx.violate("file:stopped", format!("{e:?} {} {}", sched::s().panic_msg, sched::blocked_summary()));
                return;
            }
        }
        judge(cx, &hist);
        if let Some((s, m)) = check_files(&slots, 0) {
            cx.violate(&s, m);
        }
        // two files never hold the same bytes
        let fs = files();
        // what the bytes are masked with never repeats, within one file or between two
        let mut seen: std::collections::HashMap<[u8; 8], usize> = Default::default();
        for (i, f) in fs.iter().enumerate() {
            if hit(&f.0, &["unlink", "write", "open", "read", "trunc"]) {
                continue;
            }
            for w in f.2.windows(8) {
                let w: [u8; 8] = w.try_into().expect("eight");
                match seen.insert(w, i) {
                    Some(j) if j == i || fs[j].2 != f.2 => {
                        let m = if j == i { f.0.clone() } else { format!("{} and {}", f.0, fs[j].0) };
                        cx.violate("file:mask", format!("{m}: the same eight masked bytes occur twice"));
                        return;
                    }
                    _ => {}
                }
            }
        }
        for i in 0..fs.len() {
            for j in 0..i {
                if fs[i].2.len() >= 8 && fs[i].2 == fs[j].2 && !hit(&fs[i].0, &["unlink"]) && !hit(&fs[j].0, &["unlink"]) {
                    // a clone is a duplicate of the file
                    cx.count("equal_files");
                    if plan.threads.iter().flatten().all(|o| o.k != "clone") {
                        cx.violate("file:same", format!("{} and {} hold the same bytes", fs[i].0, fs[j].0));
                    }
                }
            }
        }
        // everything that is left still has its value, and goes without a trace
        let s2 = slots.clone();
        let bad = cx.solo("verify", move || {
            let all: Vec<(i64, Slot)> = s2.with(|s| s.iter().map(|(k, v)| (*k, v.clone())).collect());
            for (k, s) in all {
                match look(&s.m, &s.want) {
                    Res::Ok => {}
                    r => return Some(format!("memory {k} afterwards gives {r:?}")),
                }
            }
            None
        });
        match bad {
            Some(Some(m)) => cx.violate("file:lost", m),
            None => return,
            _ => {}
        }
        if let Some((s, m)) = check_files(&slots, 0) {
            cx.violate(&s, format!("{m} (at the end)"));
        }
        let s2 = slots.clone();
        cx.solo("drop", move || {
            let all = s2.with(std::mem::take);
            drop(all);
        });
        if let Some((s, m)) = check_files(&slots, 0) {
            cx.violate(&s, format!("{m} (after everything was dropped)"));
        }
        if let Some(l) = vfs::v().leaks.first().cloned() {
            cx.violate("file:clear", l);
        }
    }
}

/// C04 for memory kept in files: what the files, and their names, are ever given.
pub struct FileClear;
impl Scenario for FileClear {
    fn property(&self) -> &'static str {
        "C04"
    }
    fn name(&self) -> &'static str {
        "file-parts"
    }
    fn quick_runs(&self) -> u64 {
        12000
    }
    fn real(&self) -> &'static str {
        FileMem.real()
    }
    fn rule(&self) -> &'static str {
        "1-4 users allocate, unlock, refresh, clone, serialise, update, erase and drop file-backed and mixed memory while disk calls fail; no eight bytes in a row of a secret are ever handed to a write call or part of a file name"
    }
    fn gen(&self, r: &mut Rng, k: u64, t: bool) -> Plan {
        let mut p = FileMem.gen(r, k, t);
        p.property = self.property().into();
        p.scenario = self.name().into();
        p
    }
    fn run(&self, cx: &mut Cx) {
        FileMem.run(cx);
        // everything else about these files is C19
        if cx.viol.as_ref().map_or(false, |v| v.0 != "file:clear") {
            cx.viol = None;
        }
        if let Some(l) = vfs::v().leaks.first().cloned() {
            cx.violate("file:clear", l);
        }
    }
}
