//! C05, C06, C08, C10: concurrent use of vaults, stores, the client registry and commits.
use crate::fw::*;
use crate::w::*;
use simrt::{sched, Rng};

pub fn gen_vault_op(r: &mut Rng, c: i64, nv: i64, nr: i64, x: &mut i64) -> Op {
    let v = r.below(nv as u64) as i64;
    let q = r.below(nr as u64) as i64;
    let v2 = r.below(nv as u64) as i64;
    let q2 = r.below(nr as u64) as i64;
    match r.weighted(&[24, 26, 8, 5, 8, 6, 8, 10, 3]) {
        0 => {
            *x += 1;
            op("write", &[c, v, q, *x % NVAL])
        }
        1 => op("read", &[c, v, q]),
        2 => op("exists", &[c, v, q]),
        3 => op("vexists", &[c, v]),
        4 => op("revoke", &[c, v, q]),
        5 => op("cleanup", &[c, v]),
        6 => op("delete", &[c, v, q]),
        7 => op("copy", &[c, v, q, v2, q2]),
        _ => {
            *x += 1;
            op("pwrite", &[c, v, q, *x % NVAL])
        }
    }
}
pub fn gen_store_op(r: &mut Rng, c: i64, nk: i64, x: &mut i64) -> Op {
    let k = r.below(nk as u64) as i64;
    match r.weighted(&[30, 30, 14, 12, 12, 2]) {
        0 => {
            *x += 1;
            op("sput", &[c, k, *x % NVAL])
        }
        1 => op("sget", &[c, k]),
        2 => op("sdel", &[c, k]),
        3 => op("shas", &[c, k]),
        4 => op("skeys", &[c]),
        _ => op("sclear", &[c]),
    }
}
/// Reads everything back through the handles of task 0.
pub fn observe(nc: i64, nv: i64, nr: i64, nk: i64) -> Vec<Op> {
    let mut o = vec![];
    for c in 0..nc {
        for v in 0..nv {
            o.push(op("vexists", &[c, v]));
            for q in 0..nr {
                o.push(op("exists", &[c, v, q]));
                o.push(op("read", &[c, v, q]));
            }
        }
        for k in 0..nk {
            o.push(op("sget", &[c, k]));
        }
        if nk > 0 {
            o.push(op("skeys", &[c]));
        }
    }
    o
}
pub fn gen_loc(r: &mut Rng, nr: i64) -> i64 {
    let q = r.below(nr as u64) as i64;
    if r.chance(1, 5) {
        50 + q
    } else {
        q
    }
}
/// setup, then the threads at once, then the closing operations; one history.
pub fn run_plain(cx: &mut Cx, setup: &[Op], closing: Vec<Op>) -> Option<Hist<Res>> {
    let hist: Hist<Res> = Hist::new();
    let plan = cx.plan;
    let sess0 = cx.solo("new", Sess::new)?;
    let sess = seq(cx, &hist, sess0, setup.to_vec(), 0)?;
    sched::activate(true);
    let t = tasks(&hist, &sess, &plan.threads, 1);
    cx.phase(t);
    sched::activate(false);
    if !cx.ok() {
        cx.sample = hist.lines();
        return None;
    }
    let sess = seq(cx, &hist, sess, closing, 0);
    if let Some(s) = sess {
        cx.solo("drop", move || drop(s));
    }
    cx.sample = hist.lines();
    if cx.ok() {
        Some(hist)
    } else {
        None
    }
}

pub struct Vault;
impl Scenario for Vault {
    fn property(&self) -> &'static str {
        "C05"
    }
    fn name(&self) -> &'static str {
        "vault-lin"
    }
    fn quick_runs(&self) -> u64 {
        20000
    }
    fn real(&self) -> &'static str {
        "client (vaults, procedures, key store), engine vault, runtime guarded memory: all as compiled from /repo"
    }
    fn rule(&self) -> &'static str {
        "2-4 users of one client issue random vault operations on 1-3 vaults of 1-3 records; random or PCT schedules; every result checked for linearizability against the reference model"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C05", "vault-lin", r.next() >> 1);
        let nv = 1 + r.below(3) as i64;
        let nr = 1 + r.below(3) as i64;
        p.cfg.insert("nv".into(), nv);
        p.cfg.insert("nr".into(), nr);
        p.cfg.insert("spurious".into(), if r.chance(1, 3) { 4 } else { 0 });
        let mut x = 0;
        p.setup.push(op("create", &[0]));
        for _ in 0..r.below(6) {
            p.setup.push(gen_vault_op(r, 0, nv, nr, &mut x));
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let n = 2 + r.below(if nt == 2 { 6 } else { 4 });
            p.threads.push((0..n).map(|_| gen_vault_op(r, 0, nv, nr, &mut x)).collect());
        }
        p.mem_points = r.chance(1, 3);
        p.sched = gen_sched(r, 1200);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let closing = observe(1, cx.plan.c("nv"), cx.plan.c("nr"), 0);
        let setup = cx.plan.setup.clone();
        if let Some(h) = run_plain(cx, &setup, closing) {
            let all = h.all();
            let th = entries(&all, |_| 0, 1);
            check_lin(cx, &SModel { lax_fail: false, lax_load: false }, St::default(), &th, "vault-linearizability");
        }
    }
}

pub struct StoreS;
impl Scenario for StoreS {
    fn property(&self) -> &'static str {
        "C06"
    }
    fn name(&self) -> &'static str {
        "store-lin"
    }
    fn quick_runs(&self) -> u64 {
        40000
    }
    fn real(&self) -> &'static str {
        "client store and engine cache as compiled from /repo"
    }
    fn rule(&self) -> &'static str {
        "2-4 users of one client's store and of the session store issue random operations on 1-4 keys; linearizability against a map"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C06", "store-lin", r.next() >> 1);
        let nk = 1 + r.below(4) as i64;
        p.cfg.insert("nk".into(), nk);
        p.cfg.insert("spurious".into(), if r.chance(1, 3) { 4 } else { 0 });
        let mut x = 0;
        p.setup.push(op("create", &[0]));
        for _ in 0..r.below(4) {
            p.setup.push(gen_store_op(r, 0, nk, &mut x));
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let n = 2 + r.below(6);
            let ops = (0..n)
                .map(|_| {
                    if r.chance(1, 6) {
                        x += 1;
                        let k = r.below(nk as u64) as i64;
                        if r.chance(1, 2) {
                            op("ssput", &[k, x % NVAL])
                        } else {
                            op("ssget", &[k])
                        }
                    } else {
                        gen_store_op(r, 0, nk, &mut x)
                    }
                })
                .collect();
            p.threads.push(ops);
        }
        p.mem_points = r.chance(1, 2);
        p.sched = gen_sched(r, 300);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let closing = observe(1, 0, 0, cx.plan.c("nk"));
        let setup = cx.plan.setup.clone();
        if let Some(h) = run_plain(cx, &setup, closing) {
            let all = h.all();
            let th = entries(&all, |_| 0, 1);
            check_lin(cx, &SModel { lax_fail: false, lax_load: false }, St::default(), &th, "store-linearizability");
        }
    }
}
