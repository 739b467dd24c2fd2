//! C01, C02, C10, C20, C08: snapshots on a simulated disk that fails, loses writes and dies.
use crate::client::*;
use crate::fw::*;
use crate::w::*;
use simrt::sched::PhaseEnd;
use simrt::{sched, vfs, Rng};

/// Reload everything from a file in a fresh process and look at it.
pub fn reload_and_observe(p: i64, key: i64, nc: i64, nv: i64, nr: i64, nk: i64) -> Vec<Op> {
    let mut o = vec![op("loads", &[p, key])];
    for c in 0..nc {
        o.push(op("load", &[c]));
    }
    o.extend(observe(nc, nv, nr, nk));
    o
}
pub struct Dims {
    pub nc: i64,
    pub nv: i64,
    pub nr: i64,
    pub nk: i64,
}
impl Dims {
    pub fn of(p: &Plan) -> Dims {
        Dims { nc: p.c("nc"), nv: p.c("nv"), nr: p.c("nr"), nk: p.c("nk") }
    }
    pub fn gen(r: &mut Rng, p: &mut Plan) -> Dims {
        let d = Dims { nc: 1 + r.below(2) as i64, nv: 1 + r.below(2) as i64, nr: 1 + r.below(3) as i64, nk: 1 + r.below(2) as i64 };
        p.cfg.insert("nc".into(), d.nc);
        p.cfg.insert("nv".into(), d.nv);
        p.cfg.insert("nr".into(), d.nr);
        p.cfg.insert("nk".into(), d.nk);
        d
    }
    pub fn reload(&self, p: i64, key: i64) -> Vec<Op> {
        reload_and_observe(p, key, self.nc, self.nv, self.nr, self.nk)
    }
    pub fn observe(&self) -> Vec<Op> {
        observe(self.nc, self.nv, self.nr, self.nk)
    }
    /// An operation that changes or reads a client.
    pub fn data_op(&self, r: &mut Rng, x: &mut i64) -> Op {
        let c = r.below(self.nc as u64) as i64;
        if r.chance(1, 3) {
            gen_store_op(r, c, self.nk, x)
        } else {
            gen_vault_op(r, c, self.nv, self.nr, x)
        }
    }
    pub fn write_op(&self, r: &mut Rng, x: &mut i64) -> Op {
        let c = r.below(self.nc as u64) as i64;
        *x += 1;
        if r.chance(1, 3) {
            op("sput", &[c, r.below(self.nk as u64) as i64, *x % NVAL])
        } else {
            op("write", &[c, r.below(self.nv as u64) as i64, r.below(self.nr as u64) as i64, *x % NVAL])
        }
    }
    pub fn setup(&self, r: &mut Rng, p: &mut Plan, x: &mut i64, n: u64) {
        for c in 0..self.nc {
            p.setup.push(op("create", &[c]));
        }
        for _ in 0..r.below(n + 1) {
            p.setup.push(self.data_op(r, x));
        }
    }
}
/// The end of one process and the start of the next.
pub fn restart(cx: &mut Cx, hist: &Hist<Res>, lose: bool) -> Option<Sess> {
    if lose {
        cx.crash_disk();
        vfs::v().sync_everything();
    } else {
        vfs::v().crash_kill();
        vfs::v().sync_everything();
    }
    let h = hist.clone();
    cx.solo("restart", move || h.run(0, 0, &op("restart", &[]), || Res::Ok));
    cx.solo("new", Sess::new)
}
/// A snapshot file that exists can be decrypted: whatever failed, it is the old one or the new one.
pub fn readable(cx: &mut Cx, path: i64, when: &str) -> Option<()> {
    if vfs::v().peek(&snap_file(path)).is_none() {
        return Some(());
    }
    cx.count("files_read_back");
    let keys = 1 + cx.plan.c("keys");
    let e = cx.solo("read back", move || {
        let f = iota_stronghold::SnapshotPath::from_path(snap_path(path));
        let mut e = None;
        for key in 7..7 + keys {
            let mut k = [0u8; 32];
            k.copy_from_slice(&key_bytes(key));
            e = iota_stronghold::Snapshot::read_from_snapshot(&f, k, None).err().map(|e| e.to_string());
            if e.is_none() {
                break;
            }
        }
        e
    })?;
    if let Some(e) = e {
        cx.violate("unreadable-file", format!("{} cannot be read {when}: {e}", snap_path(path)));
        return None;
    }
    Some(())
}
/// The concurrent part of a plan with its faults and crash point; true: the process died.
pub fn storm(cx: &mut Cx, hist: &Hist<Res>, sess: &Sess) -> Option<bool> {
    let plan = cx.plan;
    let t = tasks(hist, sess, &plan.threads, 1);
    sched::activate(true);
    cx.arm();
    let e = cx.phase(t);
    cx.disarm();
    sched::activate(false);
    cx.ok().then_some(e == PhaseEnd::Crashed)
}
pub fn verify(cx: &mut Cx, hist: &Hist<Res>, lax: bool, what: &str) {
    verify_with(cx, hist, SModel { lax_fail: lax, lax_load: false }, what)
}
pub fn verify_with(cx: &mut Cx, hist: &Hist<Res>, m: SModel, what: &str) {
    cx.sample = hist.lines();
    if !cx.ok() {
        return;
    }
    let all = hist.all();
    let ep = epochs(&all);
    let nc = cx.plan.c("nc") as usize;
    let th = entries(&all, &ep, nc);
    check_lin(cx, &m, St::default(), &th, what);
}

pub struct CrashS;
impl Scenario for CrashS {
    fn property(&self) -> &'static str {
        "C01"
    }
    fn name(&self) -> &'static str {
        "crash"
    }
    fn quick_runs(&self) -> u64 {
        7500
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime with their snapshot code as compiled from /repo; the disk is simulated (page cache, durable state, torn and lost writes)"
    }
    fn rule(&self) -> &'static str {
        "1-3 users write and commit to one or two files; the process is killed or the power fails at a random I/O call or scheduling point; a new process reloads, observes, goes on, commits, loses power right after the acknowledgement and is observed again"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C01", "crash", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        let path = *r.pick(&[0, 0, 0, 1, 3, 3, 4, 5, 6]);
        let p2 = if r.chance(1, 4) { 1 } else { path };
        p.cfg.insert("path".into(), path);
        p.cfg.insert("path2".into(), p2);
        d.setup(r, &mut p, &mut x, 5);
        // sometimes the key changes, and sometimes it is stored
        let keys = if r.chance(1, 3) { 1 + r.below(2) as i64 } else { 0 };
        p.cfg.insert("keys".into(), keys);
        let stored = r.chance(1, 3);
        if stored {
            p.setup.push(op("setkey", &[7, r.below(5) as i64]));
        }
        let key = |r: &mut Rng| 7 + r.below(keys as u64 + 1) as i64;
        let place = r.below(5) as i64;
        let com = |r: &mut Rng, path: i64, v: &mut Vec<Op>| {
            if stored && r.chance(2, 3) {
                if keys > 0 && r.chance(1, 2) {
                    v.push(op("setkey", &[key(r), if r.chance(1, 2) { place } else { r.below(5) as i64 }]));
                }
                v.push(op("commitk", &[path]));
            } else {
                v.push(op("commit", &[path, key(r)]));
            }
        };
        let nset = r.below(3);
        for _ in 0..nset {
            com(r, path, &mut p.setup);
            p.setup.push(d.write_op(r, &mut x));
        }
        let nt = 1 + r.below(3);
        for t in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(3) {
                v.push(d.write_op(r, &mut x));
                if t == 0 || r.chance(1, 3) {
                    let f = if r.chance(1, 3) { p2 } else { path };
                    com(r, f, &mut v);
                }
            }
            p.threads.push(v);
        }
        p.cfg.insert("latency".into(), if r.chance(1, 3) { 20_000 } else { 0 });
        let power = r.chance(2, 3);
        p.crash = Some(if r.chance(4, 5) {
            Crash { at_io: r.below(40) as i64, at_step: 0, power, seed: r.next() >> 1 }
        } else {
            Crash { at_io: -1, at_step: 1 + r.below(4000) as i64, power, seed: r.next() >> 1 }
        });
        if r.chance(1, 5) {
            p.faults.push(gen_disk_fault(r));
        }
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 1500) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let (path, p2) = (plan.c("path"), plan.c("path2"));
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            let crashed = storm(cx, &hist, &s)?;
            cx.count(if crashed { "crashed_midway" } else { "crashed_after_the_end" });
            std::mem::forget(s);
            let s = restart(cx, &hist, true)?;
            for f in [path, p2] {
                readable(cx, f, "after the crash")?;
            }
            let keys = plan.c("keys");
            let reload = |path| (7..8 + keys).flat_map(|k| d.reload(path, k)).collect::<Vec<Op>>();
            let mut ops = reload(path);
            ops.push(op("write", &[0, 0, 0, 150]));
            ops.push(op("sput", &[0, 0, 151]));
            ops.push(op("commit", &[p2, 7 + keys]));
            let s = seq(cx, &hist, s, ops, 0)?;
            std::mem::forget(s);
            let s = restart(cx, &hist, true)?;
            let s = seq(cx, &hist, s, reload(path), 0)?;
            std::mem::forget(s);
            if p2 != path {
                let s = restart(cx, &hist, false)?;
                let s = seq(cx, &hist, s, reload(p2), 0)?;
                std::mem::forget(s);
            }
            Some(())
        })();
        verify(cx, &hist, true, "durability");
    }
}
pub fn gen_disk_fault(r: &mut Rng) -> FaultSpec {
    let (cls, errs): (&str, &[&str]) = *r.pick(&[
        ("write", &["EIO", "ENOSPC", "short", "EINTR", "EDQUOT"][..]),
        ("write", &["EIO", "ENOSPC", "short"][..]),
        ("fsync", &["EIO", "ENOSPC"][..]),
        ("open", &["EIO", "EMFILE", "EACCES", "ENOSPC", "EROFS"][..]),
        ("rename", &["EIO", "EACCES", "ENOSPC"][..]),
        ("mkdir", &["EACCES", "ENOSPC"][..]),
        ("stat", &["EIO", "EACCES"][..]),
        ("close", &["EIO"][..]),
        ("any", &["EIO", "ENOSPC"][..]),
    ]);
    FaultSpec { cls: cls.into(), nth: r.below(if cls == "any" { 40 } else { 6 }), err: r.pick(errs).to_string(), count: *r.pick(&[1, 1, 1, 2, 5]) }
}

pub struct DiskFail;
impl Scenario for DiskFail {
    fn property(&self) -> &'static str {
        "C02"
    }
    fn name(&self) -> &'static str {
        "disk-faults"
    }
    fn quick_runs(&self) -> u64 {
        10000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime with their snapshot code as compiled from /repo; simulated disk with injected errors"
    }
    fn rule(&self) -> &'static str {
        "1-3 users write and commit while I/O calls fail (errors, short writes, full disk, no descriptors); afterwards the clients in memory, the files and the directory are compared with the model, a commit on the healthy disk must succeed, and a new process must find it"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C02", "disk-faults", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        let path = *r.pick(&[0, 0, 0, 1, 3, 3, 4, 5, 6]);
        p.cfg.insert("path".into(), path);
        d.setup(r, &mut p, &mut x, 5);
        if r.chance(3, 4) {
            p.setup.push(op("commit", &[path, 7]));
            p.cfg.insert("had".into(), 1);
            for _ in 0..r.below(3) {
                p.setup.push(d.data_op(r, &mut x));
            }
        }
        let stored = r.chance(1, 4);
        if stored {
            p.setup.push(op("setkey", &[7]));
        }
        let nt = *r.pick(&[1, 1, 2, 3]);
        for t in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(3) {
                v.push(d.data_op(r, &mut x));
                if t == 0 || r.chance(1, 4) {
                    v.push(if stored { op("commitk", &[path]) } else { op("commit", &[path, 7]) });
                }
            }
            p.threads.push(v);
        }
        match r.below(8) {
            0 => {
                // the disk is full after so many more bytes
                p.cfg.insert("quota".into(), 1 + r.below(2500) as i64);
            }
            1 => {
                p.cfg.insert("fds".into(), 1);
            }
            _ => {
                for _ in 0..1 + r.below(3) {
                    p.faults.push(gen_disk_fault(r));
                }
            }
        }
        if r.chance(1, 3) {
            p.faults.push(FaultSpec { cls: "write".into(), nth: r.below(8), err: "short".into(), count: 1 });
        }
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 1500) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let path = plan.c("path");
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            if plan.c("quota") > 0 {
                vfs::v().quota = Some(plan.c("quota") as u64);
            }
            let lim = vfs::v().fd_limit;
            if plan.c("fds") > 0 {
                vfs::v().fd_limit = 0;
            }
            let crashed = storm(cx, &hist, &s)?;
            vfs::v().fd_limit = lim;
            let fired = vfs::v().fired.clone();
            if !fired.keys().any(|k| k.starts_with("unlink:") || k == "crash") {
                litter(cx, path, "after failed commits")?;
            }
            let _ = crashed;
            // everything in memory is still there, and the file is complete
            let mut ops = d.observe();
            // what is on the disk, seen by somebody else
            let s = seq(cx, &hist, s, std::mem::take(&mut ops), 0)?;
            let keep = s.clone();
            let s2 = cx.solo("new", Sess::new)?;
            drop(s2);
            let failed = hist.all().iter().any(|h| h.op.k.starts_with("commit") && matches!(h.res, Some(Res::Err(_))));
            if failed {
                cx.count("nontrivial");
                cx.count("failed_commits");
            }
            if plan.seed % 2 == 0 {
                // the process ends without a further commit
                std::mem::forget(keep);
                let s = restart(cx, &hist, plan.seed % 4 == 0)?;
                readable(cx, path, "after failed commits")?;
                let s = seq(cx, &hist, s, d.reload(path, 7), 0)?;
                std::mem::forget(s);
            } else {
                let stored = plan.setup.iter().any(|o| o.k == "setkey");
                let c = if stored { op("commitk", &[path]) } else { op("commit", &[path, 7]) };
                let s = seq(cx, &hist, keep, vec![c], 0)?;
                std::mem::forget(s);
                let last = hist.all().pop();
                if let Some(h) = last {
                    if h.res != Some(Res::Ok) {
                        cx.violate("commit-after-recovery", format!("the disk works again, but the commit fails: {:?}", h.res));
                        return None;
                    }
                }
                if !vfs::v().fired.keys().any(|k| k.starts_with("unlink:") || k == "crash") {
                    litter(cx, path, "after the commit that followed")?;
                }
                let s = restart(cx, &hist, true)?;
                let s = seq(cx, &hist, s, d.reload(path, 7), 0)?;
                std::mem::forget(s);
            }
            Some(())
        })();
        verify(cx, &hist, true, "failed-commit");
    }
}
/// Files other than the snapshot itself.
pub fn litter(cx: &mut Cx, path: i64, when: &str) -> Option<()> {
    let f: Vec<String> = vfs::v().files().into_iter().filter(|f| f.starts_with("/simfs") && *f != snap_file(path) && *f != snap_file(0) && *f != snap_file(1)).collect();
    if !f.is_empty() {
        cx.violate("litter", format!("stray files {when}: {}", f.join(", ")));
        return None;
    }
    Some(())
}

pub struct CutS;
impl Scenario for CutS {
    fn property(&self) -> &'static str {
        "C10"
    }
    fn name(&self) -> &'static str {
        "commit-cut"
    }
    fn quick_runs(&self) -> u64 {
        4000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk"
    }
    fn rule(&self) -> &'static str {
        "2-4 users change vaults and stores of 1-2 clients while others commit (given or stored key) or save single clients in memory; the process ends, a new one loads what was committed and its contents are checked, together with all results, against the model in which a commit copies each client at one instant"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C10", "commit-cut", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        p.cfg.insert("path".into(), 0);
        p.cfg.insert("spurious".into(), if r.chance(1, 4) { 4 } else { 0 });
        d.setup(r, &mut p, &mut x, 6);
        let stored = r.chance(1, 3);
        if stored {
            p.setup.push(op("setkey", &[7]));
        }
        let com = |r: &mut Rng| if stored && r.chance(1, 2) { op("commitk", &[0]) } else { op("commit", &[0, 7]) };
        if r.chance(1, 2) {
            p.setup.push(com(r));
            if d.nc > 1 && r.chance(1, 2) {
                // a saved client that is no longer loaded stays in the snapshot
                p.setup.push(op("unload", &[1]));
            }
        }
        let nt = 2 + r.below(2);
        for t in 0..nt {
            let mut v = vec![];
            for _ in 0..2 + r.below(4) {
                v.push(d.data_op(r, &mut x));
                if t == 0 && r.chance(1, 2) || r.chance(1, 10) {
                    v.push(com(r));
                }
                if r.chance(1, 12) {
                    v.push(op("wclient", &[r.below(d.nc as u64) as i64]));
                }
            }
            if t == 0 {
                v.push(com(r));
            }
            p.threads.push(v);
        }
        p.mem_points = r.chance(1, 4);
        p.sched = gen_sched(r, 4000);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            std::mem::forget(s);
            let s = restart(cx, &hist, false)?;
            let s = seq(cx, &hist, s, d.reload(0, 7), 0)?;
            std::mem::forget(s);
            Some(())
        })();
        verify(cx, &hist, false, "commit-cut");
    }
}

/// One user commits to several files while others add to fresh vaults, records and store keys.
pub struct CutStream;
impl Scenario for CutStream {
    fn property(&self) -> &'static str {
        "C10"
    }
    fn name(&self) -> &'static str {
        "commit-stream"
    }
    fn quick_runs(&self) -> u64 {
        2000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk"
    }
    fn rule(&self) -> &'static str {
        "1-3 users fill new vaults, records and store keys one after the other while another commits to different files; every file is loaded by a process of its own and must show one instant of each client"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C10", "commit-stream", r.next() >> 1);
        let d = Dims { nc: 1 + r.below(2) as i64, nv: 2 + r.below(3) as i64, nr: 1 + r.below(2) as i64, nk: 1 + r.below(3) as i64 };
        for (k, v) in [("nc", d.nc), ("nv", d.nv), ("nr", d.nr), ("nk", d.nk)] {
            p.cfg.insert(k.into(), v);
        }
        let mut x = 0;
        d.setup(r, &mut p, &mut x, 1);
        let nt: usize = *r.pick(&[1, 1, 2]);
        let nf = 1 + r.below(if nt == 1 { 3 } else { 2 }) as i64;
        p.cfg.insert("files".into(), nf);
        p.threads.push((0..nf).map(|f| op("commit", &[f, 7])).collect());
        let mut fresh: Vec<Op> = vec![];
        for c in 0..d.nc {
            for v in 0..d.nv {
                for q in 0..d.nr {
                    x += 1;
                    let k = *r.pick(&["write", "write", "pwrite"]);
                    fresh.push(op(k, &[c, v, q, x % NVAL]));
                }
            }
            for k in 0..d.nk {
                x += 1;
                fresh.push(op("sput", &[c, k, x % NVAL]));
            }
        }
        for i in (1..fresh.len()).rev() {
            fresh.swap(i, r.below(i as u64 + 1) as usize);
        }
        for t in 0..nt {
            let mut v: Vec<Op> = fresh.iter().skip(t).step_by(nt).take(if nt == 1 { 10 } else { 4 }).cloned().collect();
            for i in 0..v.len() {
                if r.chance(1, 6) {
                    let o = v[i].clone();
                    if o.k != "sput" {
                        v.insert(i + 1, op(*r.pick(&["delete", "revoke"]), &[o.n(0), o.n(1), o.n(2)]));
                    }
                }
            }
            p.threads.push(v);
        }
        p.sched = gen_sched(r, 3000);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            std::mem::forget(s);
            for f in 0..plan.c("files") {
                let s = restart(cx, &hist, false)?;
                let s = seq(cx, &hist, s, d.reload(f, 7), 0)?;
                std::mem::forget(s);
            }
            Some(())
        })();
        verify(cx, &hist, false, "commit-stream");
    }
}

pub struct Registry;
/// Weights of the kinds of operation, drawn anew for each run.
pub fn registry_mix(r: &mut Rng, destructive: bool) -> [u64; 11] {
    let mut w = [6, 12, 10, 5, 5, 8, if destructive { 4 } else { 0 }, 6, if destructive { 2 } else { 0 }, 6, 26];
    if r.chance(2, 3) {
        for _ in 0..1 + r.below(3) {
            let i = r.below(11) as usize;
            if w[i] > 0 {
                w[i] = *r.pick(&[0, 20, 40]);
            }
        }
        if w[10] == 0 {
            w[10] = 6;
        }
    }
    w
}
pub fn registry_op(r: &mut Rng, d: &Dims, x: &mut i64, w: &[u64; 11]) -> Op {
    let c = r.below(d.nc as u64) as i64;
    match r.weighted(w) {
        0 => op("create", &[c]),
        1 => op("load", &[c]),
        2 => op("get", &[c]),
        3 => op("loadf", &[c, 0, 7]),
        4 => op("loads", &[0, 7]),
        5 => op("unload", &[c]),
        6 => op("purge", &[c]),
        7 => op("wclient", &[c]),
        8 => op("clear", &[]),
        9 => op("commit", &[0, 7]),
        _ => d.data_op(r, x),
    }
}
impl Scenario for Registry {
    fn property(&self) -> &'static str {
        "C08"
    }
    fn name(&self) -> &'static str {
        "registry-lin"
    }
    fn quick_runs(&self) -> u64 {
        18000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk"
    }
    fn rule(&self) -> &'static str {
        "2-3 users create, load (from the file or from memory), get, unload, purge, save, commit and clear 1-2 clients and use them through their own handles; linearizability against the model of loaded clients, handles, saved states and the file"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C08", "registry-lin", r.next() >> 1);
        let mut d = Dims::gen(r, &mut p);
        d.nv = 1;
        d.nr = d.nr.min(2);
        p.cfg.insert("nv".into(), d.nv);
        p.cfg.insert("nr".into(), d.nr);
        let mut x = 0;
        let w = registry_mix(r, true);
        d.setup(r, &mut p, &mut x, 4);
        if r.chance(3, 4) {
            p.setup.push(op("commit", &[0, 7]));
            for _ in 0..r.below(4) {
                p.setup.push(registry_op(r, &d, &mut x, &w));
            }
        }
        let nt = 2 + r.below(2);
        for _ in 0..nt {
            let n = 2 + r.below(if nt == 2 { 5 } else { 3 });
            p.threads.push((0..n).map(|_| registry_op(r, &d, &mut x, &w)).collect());
        }
        if r.chance(1, 3) {
            // one removal against users who save and load
            let w2 = [2, 8, 4, 2, 2, 2, 0, 14, 0, 8, 6];
            for t in p.threads.iter_mut().skip(1) {
                *t = (0..1 + r.below(3)).map(|_| registry_op(r, &d, &mut x, &w2)).collect();
            }
            let c = r.below(d.nc as u64) as i64;
            p.threads[0] = vec![if r.chance(1, 2) { op("clear", &[]) } else { op("purge", &[c]) }];
            if r.chance(1, 3) {
                let o = registry_op(r, &d, &mut x, &w);
                p.threads[0].insert(0, o);
            }
            for c in 0..d.nc {
                p.setup.push(op("create", &[c]));
                p.setup.push(op("write", &[c, 0, 0, 100 + c]));
            }
        }
        p.mem_points = r.chance(1, 5);
        p.sched = gen_sched(r, 3000);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            let mut ops = d.observe();
            for c in 0..d.nc {
                ops.push(op("get", &[c]));
                ops.push(op("load", &[c]));
            }
            ops.extend(d.observe());
            let s = seq(cx, &hist, s, ops, 0)?;
            cx.solo("drop", move || drop(s));
            Some(())
        })();
        verify(cx, &hist, false, "registry");
    }
}
