//! C09: any mix of calls, with failing disks and memory locking: every call returns and the
//! instance stays usable.
use crate::client::*;
use crate::fw::*;
use crate::persist::*;
use crate::procs;
use crate::sync::{self, Conf};
use crate::w::*;
use iota_stronghold::{KeyProvider, SnapshotPath};
use simrt::{sched, vfs, Rng};
use std::sync::Arc;

#[derive(Clone)]
struct User {
    se: Sess,
    /// One key provider that all users share.
    kp: Arc<KeyProvider>,
    nv: i64,
    nr: i64,
}
impl User {
    fn exec(&mut self, o: &Op) -> Res {
        let unit = |r: Result<(), iota_stronghold::ClientError>| match r {
            Ok(()) => Res::Ok,
            Err(e) => cerr(e),
        };
        match o.k.as_str() {
            "pchain" | "pproc" => match self.se.h.get(&o.n(0)) {
                Some(c) => match procs::run_chain(&c.clone(), &o.a[1..], o.k == "pproc") {
                    Ok(_) => Res::Ok,
                    Err(e) => Res::Err(e),
                },
                None => Res::Skip,
            },
            "kcommit" => unit(self.se.sh.commit_with_keyprovider(&SnapshotPath::from_path(snap_path(o.n(0))), &self.kp)),
            "kloads" => unit(self.se.sh.load_snapshot(&self.kp, &SnapshotPath::from_path(snap_path(o.n(0))))),
            "kloadf" => match self.se.sh.load_client_from_snapshot(cpath(o.n(0)), &self.kp, &SnapshotPath::from_path(snap_path(o.n(1)))) {
                Ok(c) => {
                    self.se.h.insert(o.n(0), c);
                    Res::Ok
                }
                Err(e) => cerr(e),
            },
            _ => sync::exec(&mut self.se, o, self.nv, self.nr),
        }
    }
}
const KINDS: usize = 24;
fn gen_mixed(r: &mut Rng, d: &Dims, x: &mut i64, w: &[u64; KINDS]) -> Op {
    let c = r.below(d.nc as u64) as i64;
    let p = *r.pick(&[0, 0, 0, 1, 3]);
    let q = |r: &mut Rng, n: i64| r.below(n as u64) as i64;
    match r.weighted(w) {
        0 => op("create", &[c]),
        1 => op("get", &[c]),
        2 => op("load", &[c]),
        3 => op("loadf", &[c, p, 7]),
        4 => op("loads", &[p, if r.chance(1, 5) { 8 } else { 7 }]),
        5 => op("unload", &[c]),
        6 => op("purge", &[c]),
        7 => op("clear", &[]),
        8 => op("wclient", &[c]),
        9 => op("commit", &[p, 7]),
        10 => op("commitk", &[p]),
        11 => op("setkey", &[q(r, 3), q(r, 5)]),
        12 => op("kcommit", &[p]),
        13 => op("kloads", &[p]),
        14 => op("kloadf", &[c, p]),
        15 => {
            *x += 1;
            let k = q(r, d.nk);
            op(if r.chance(1, 2) { "ssput" } else { "ssget" }, &[k, *x % NVAL])
        }
        16 => gen_store_op(r, c, d.nk, x),
        17 => gen_vault_op(r, c, d.nv, d.nr, x),
        18 => op("syncv", &[c, q(r, d.nv + 1), q(r, d.nv + 1), q(r, 2), if r.chance(2, 3) { 0 } else { q(r, 1 << d.nr) }]),
        19 => {
            let mut a = vec![c, q(r, d.nc)];
            a.extend(Conf::gen(r, d.nv, d.nr));
            op("syncw", &a)
        }
        20 => {
            let mut a = vec![c];
            a.extend(procs::gen_chain(r, d.nv, d.nr, x));
            op("pchain", &a)
        }
        21 => {
            let mut a = vec![c];
            a.extend(procs::gen_step(r, d.nv, d.nr, x));
            op("pproc", &a)
        }
        22 => op("sput", &[c, q(r, d.nk), q(r, 100), 1 + q(r, 2000)]),
        _ => op("commitp", &[p, q(r, 3)]),
    }
}
pub struct Mixed;
impl Scenario for Mixed {
    fn property(&self) -> &'static str {
        "C09"
    }
    fn name(&self) -> &'static str {
        "mixed-progress"
    }
    fn quick_runs(&self) -> u64 {
        6000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; disk, memory locking, clock and scheduler simulated"
    }
    fn rule(&self) -> &'static str {
        "2-5 users issue random calls of 24 kinds (every run with its own mix) on 1-3 clients of one instance, with a shared key provider, failing I/O calls and failing memory locks; every call must return within a bounded number of steps of a schedule that becomes fair, and everything must work afterwards"
    }
    fn gen(&self, r: &mut Rng, _k: u64, thorough: bool) -> Plan {
        let mut p = Plan::new("C09", "mixed-progress", r.next() >> 1);
        let mut d = Dims::gen(r, &mut p);
        d.nc = 1 + r.below(3) as i64;
        p.cfg.insert("nc".into(), d.nc);
        p.cfg.insert("spurious".into(), if r.chance(1, 3) { 4 } else { 0 });
        let mut x = 0;
        let mut w = [0u64; KINDS];
        for k in w.iter_mut() {
            *k = *r.pick(&[0, 0, 0, 1, 2, 8]);
        }
        if r.chance(2, 5) {
            // two kinds of calls that get in each other's way, and what brings a client back
            w = [0; KINDS];
            w[*r.pick(&[0, 1, 2, 3])] = 2;
            let any = r.below(KINDS as u64) as usize;
            w[*r.pick(&[8, 8, 1, 2, 3, 9, 10, 12, any, any, any, any])] += 5;
            w[*r.pick(&[5, 5, 5, 6, 6, 7, 4, 9, 17])] += 5;
            d.nc = 1 + r.below(4) as i64 / 3;
            p.cfg.insert("nc".into(), d.nc);
        }
        if w.iter().sum::<u64>() == 0 {
            w = [1; KINDS];
        }
        d.setup(r, &mut p, &mut x, 4);
        if r.chance(2, 3) {
            p.setup.push(op("setkey", &[r.below(3) as i64, r.below(5) as i64]));
        }
        if r.chance(2, 3) {
            p.setup.push(op("commit", &[0, 7]));
        }
        let nt = 2 + r.below(4);
        for _ in 0..nt {
            let n = 1 + r.below(if nt == 2 { 6 } else { 3 + 2 * thorough as u64 });
            p.threads.push((0..n).map(|_| gen_mixed(r, &d, &mut x, &w)).collect());
        }
        if r.chance(1, 3) {
            for _ in 0..1 + r.below(2) {
                let mut f = gen_disk_fault(r);
                if r.chance(1, 3) {
                    f.cls = "read".into();
                    f.err = r.pick(&["EIO", "short", "EINTR"]).to_string();
                }
                p.faults.push(f);
            }
        }
        if r.chance(1, 6) {
            p.cfg.insert("mlock".into(), 1 + r.below(40) as i64);
        }
        p.mem_points = r.chance(1, 5);
        p.sched = gen_sched(r, 2500);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let d = Dims::of(plan);
        let hist: Hist<Res> = Hist::new();
        let (h, setup) = (hist.clone(), plan.setup.clone());
        let (nv, nr) = (d.nv, d.nr);
        let u = cx.solo("setup", move || {
            let mut u = User { se: Sess::new(), kp: Arc::new(keyprov(7)), nv, nr };
            for (j, o) in setup.iter().enumerate() {
                h.run(0, j, o, || u.exec(o));
            }
            u
        });
        let Some(u) = u else { return };
        let tasks: Vec<(String, TaskFn)> = plan
            .threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (h, mut u, ops) = (hist.clone(), u.clone(), ops.clone());
                let f: TaskFn = Box::new(move || {
                    for (j, o) in ops.iter().enumerate() {
                        h.run(1 + i, j, o, || u.exec(o));
                    }
                });
                (format!("user{}", 1 + i), f)
            })
            .collect();
        sched::activate(true);
        sched::s().fair_at = 40_000;
        cx.arm();
        if plan.c("mlock") > 0 {
            crate::memory::mem_faults(plan);
        }
        cx.phase(tasks);
        cx.disarm();
        crate::memory::mem_faults_end();
        sched::s().fair_at = u64::MAX;
        sched::activate(false);
        cx.sample = hist.lines();
        if !cx.ok() {
            return;
        }
        for e in hist.all() {
            if let Some(Res::Err(m)) = &e.res {
                if m.to_lowercase().contains("poison") {
                    cx.violate("poisoned", format!("{} = {m}", e.op.s()));
                    return;
                }
            }
            if matches!(e.res, Some(Res::Ok)) && ["commit", "kcommit", "commitk", "syncw", "pchain", "setkey", "load", "loadf", "clear", "purge"].contains(&e.op.k.as_str()) {
                cx.count(&format!("ok:{}", e.op.k));
            }
        }
        if plan.threads.iter().filter(|t| !t.is_empty()).count() > 1 {
            cx.count("nontrivial");
        }
        // everything works afterwards
        let h = hist.clone();
        let nc = d.nc;
        let bad = cx.solo("afterwards", move || -> Option<String> {
            let mut u = u;
            let mut j = 0;
            let mut go = |u: &mut User, o: Op, want: Option<Res>| -> Option<String> {
                j += 1;
                let got = h.run(0, 1000 + j, &o, || u.exec(&o));
                match want {
                    Some(w) if w != got => Some(format!("{} = {got:?} instead of {w:?}", o.s())),
                    _ => None,
                }
            };
            for c in 0..nc {
                let got = go(&mut u, op("get", &[c]), Some(Res::Ok)).is_none();
                if !got {
                    if let Some(b) = go(&mut u, op("create", &[c]), Some(Res::Ok)) {
                        return Some(b);
                    }
                }
                for (o, want) in [
                    (op("write", &[c, 9, 9, 141]), Res::Ok),
                    (op("read", &[c, 9, 9]), Res::Val(141)),
                    (op("copy", &[c, 9, 9, 8, 8]), Res::Ok),
                    (op("read", &[c, 8, 8]), Res::Val(141)),
                    (op("sdel", &[c, 77]), Res::None),
                    (op("sput", &[c, 77, 142]), Res::None),
                    (op("sget", &[c, 77]), Res::Val(142)),
                    (op("syncw", &[c, c, 0, 0, 0]), Res::Ok),
                ] {
                    if let Some(b) = go(&mut u, o, Some(want)) {
                        return Some(b);
                    }
                }
            }
            go(&mut u, op("ssput", &[5, 143]), None);
            for (o, want) in [
                (op("ssget", &[5]), Res::Val(143)),
                (op("setkey", &[7, 0]), Res::Ok),
                (op("kcommit", &[0]), Res::Ok),
                (op("commitk", &[1]), Res::Ok),
                (op("unload", &[0]), Res::Ok),
                (op("load", &[0]), Res::Ok),
                (op("read", &[0, 9, 9]), Res::Val(141)),
                (op("purge", &[0]), Res::Ok),
                (op("kloads", &[0]), Res::Ok),
                (op("load", &[0]), Res::Ok),
                (op("read", &[0, 8, 8]), Res::Val(141)),
                (op("clear", &[]), Res::Ok),
                (op("loadf", &[0, 1, 7]), Res::Ok),
                (op("sget", &[0, 77]), Res::Val(142)),
                (op("create", &[0]), Res::Ok),
                (op("exists", &[0, 9, 9]), Res::Bool(false)),
            ] {
                if let Some(b) = go(&mut u, o, Some(want)) {
                    return Some(b);
                }
            }
            drop(u);
            None
        });
        cx.sample = hist.lines();
        if let Some(Some(b)) = bad {
            cx.violate("unusable-afterwards", format!("with all faults gone, {b}"));
        }
        let _ = vfs::v();
    }
}
