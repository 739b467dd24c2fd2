//! C15, C16: transactions on shared variables.
use crate::fw::*;
use simrt::{lin, sched, Rng};
use std::cell::Cell;
use std::collections::HashSet;
use stronghold_stm::stm::error::TxError;
use stronghold_stm::stm::shared_value::SharedValue;
use stronghold_stm::stm::stm::Stm;
use stronghold_stm::stm::transaction::Transaction;
use stronghold_stm::stm::tvar::TVar;

/// Steps of a transaction, three numbers each: what, variable, value.
const LOAD: i64 = 0;
const PUT: i64 = 1;
/// store the sum of everything loaded so far plus the value
const SUM: i64 = 2;
/// load the variable the loaded values select
const LOADSEL: i64 = 3;
/// give up the first attempts
const GIVEUP: i64 = 4;
/// store the last loaded value changed by the value
const ADD: i64 = 5;
const MOD: i64 = 1_000_000_007;

/// What one transaction saw; the last number of `mk` is the value taken out at the end.
type Seen = Result<Vec<i64>, String>;

fn enc(ty: i64, x: i64) -> SharedValue {
    match ty {
        0 => SharedValue::SharedUsize(x as usize),
        1 => SharedValue::SharedVectorOfUsize(vec![x as usize, (x ^ 0x55) as usize, 7]),
        2 => SharedValue::SharedString(format!("v{x}")),
        3 => SharedValue::SharedVectorOfString(vec![format!("{x}"), format!("{}", x ^ 3)]),
        _ => SharedValue::SharedHashSetOfString(HashSet::from([format!("{x}")])),
    }
}
fn load(tx: &mut Transaction, v: &TVar, ty: i64) -> Result<i64, TxError> {
    Ok(match ty {
        0 => tx.load::<usize>(v)? as i64,
        1 => {
            let l = tx.load::<Vec<usize>>(v)?;
            if l.len() == 3 && l[1] == (l[0] ^ 0x55) && l[2] == 7 {
                l[0] as i64
            } else {
                -1
            }
        }
        2 => tx.load::<String>(v)?.strip_prefix('v').and_then(|s| s.parse().ok()).unwrap_or(-1),
        3 => {
            let l = tx.load::<Vec<String>>(v)?;
            l.first().and_then(|s| s.parse().ok()).unwrap_or(-1)
        }
        _ => tx.load::<HashSet<String>>(v)?.iter().next().and_then(|s| s.parse().ok()).unwrap_or(-1),
    })
}
fn steps(a: &[i64]) -> Vec<(i64, i64, i64)> {
    a.chunks(3).filter(|c| c.len() == 3).map(|c| (c[0], c[1], c[2])).collect()
}
fn body(tx: &mut Transaction, prog: &[(i64, i64, i64)], vars: &[TVar], tys: &[i64], tries: &Cell<i64>) -> Result<Vec<i64>, TxError> {
    tries.set(tries.get() + 1);
    let mut seen = vec![];
    let mut acc = 0i64;
    let mut last = 0i64;
    for &(k, v, x) in prog {
        let v = v as usize % vars.len();
        match k {
            LOAD => {
                let y = load(tx, &vars[v], tys[v])?;
                seen.push(y);
                acc = (acc + y) % MOD;
                last = y;
            }
            LOADSEL => {
                let v = acc.unsigned_abs() as usize % vars.len();
                let y = load(tx, &vars[v], tys[v])?;
                seen.push(y);
                acc = (acc + y) % MOD;
                last = y;
            }
            PUT => tx.store(&vars[v], enc(tys[v], x))?,
            SUM => tx.store(&vars[v], enc(tys[v], (acc + x) % MOD))?,
            ADD => tx.store(&vars[v], enc(tys[v], (last + x).rem_euclid(MOD)))?,
            GIVEUP => {
                if tries.get() <= x {
                    return Err(TxError::Failed);
                }
            }
            _ => {}
        }
    }
    Ok(seen)
}
/// The same program run alone: what it sees and the state after it.
fn model(prog: &[(i64, i64, i64)], st: &[i64]) -> (Vec<i64>, Vec<i64>) {
    let mut s = st.to_vec();
    let (mut seen, mut acc, mut last) = (vec![], 0i64, 0i64);
    for &(k, v, x) in prog {
        let v = v as usize % s.len();
        match k {
            LOAD | LOADSEL => {
                let v = if k == LOADSEL { acc.unsigned_abs() as usize % s.len() } else { v };
                let y = s[v];
                seen.push(y);
                acc = (acc + y) % MOD;
                last = y;
            }
            PUT => s[v] = x,
            SUM => s[v] = (acc + x) % MOD,
            ADD => s[v] = (last + x).rem_euclid(MOD),
            _ => {}
        }
    }
    (seen, s)
}
#[derive(Clone)]
struct World {
    stm: Stm,
    vars: Vec<TVar>,
    tys: Vec<i64>,
}
impl World {
    fn exec(&self, o: &Op, retries: &simrt::Sh<u64>) -> Seen {
        let tries = Cell::new(0);
        let r = match o.k.as_str() {
            "rw" => {
                let p = steps(&o.a);
                self.stm.read_write(|tx| body(tx, &p, &self.vars, &self.tys, &tries)).map(|r| r.res).map_err(|e| format!("{e:?}"))
            }
            "ro" => {
                let p = steps(&o.a);
                self.stm.read_only(|tx| body(tx, &p, &self.vars, &self.tys, &tries)).map(|r| r.res).map_err(|e| format!("{e:?}"))
            }
            // a variable of one's own: created, used in a transaction, taken out again
            "mk" => {
                let v = o.n(0) as usize % self.vars.len();
                let x = o.n(1);
                let own = self.stm.create(SharedValue::SharedUsize(1));
                let r = self
                    .stm
                    .read_write(|tx| {
                        tries.set(tries.get() + 1);
                        let y = load(tx, &self.vars[v], self.tys[v])?;
                        let z = tx.load::<usize>(&own)? as i64;
                        tx.store(&own, SharedValue::SharedUsize((y + x + z) as usize))?;
                        tx.store(&self.vars[v], enc(self.tys[v], (y + x) % MOD))?;
                        Ok(vec![y])
                    })
                    .map(|r| r.res)
                    .map_err(|e| format!("{e:?}"));
                match (r, own.take::<usize>()) {
                    (Ok(mut l), Ok(t)) => {
                        l.push(t as i64);
                        Ok(l)
                    }
                    (Ok(_), Err(_)) => Err("a variable nobody else holds could not be taken".into()),
                    (Err(e), _) => Err(e),
                }
            }
            _ => Ok(vec![]),
        };
        let n = tries.get().max(1) as u64 - 1;
        retries.with(|t| *t += n);
        r
    }
}
struct TxModel;
struct TxOp {
    op: Op,
    seen: Option<Seen>,
}
impl lin::Model for TxModel {
    type S = Vec<i64>;
    type O = TxOp;
    fn step(&self, s: &Vec<i64>, o: &TxOp) -> Vec<Vec<i64>> {
        let (seen, after) = match o.op.k.as_str() {
            "mk" => {
                let (v, x) = (o.op.n(0) as usize % s.len(), o.op.n(1));
                let mut n = s.clone();
                n[v] = (s[v] + x) % MOD;
                (vec![s[v], s[v] + x + 1], n)
            }
            "ro" => (model(&steps(&o.op.a), s).0, s.clone()),
            "final" => (s.clone(), s.clone()),
            _ => model(&steps(&o.op.a), s),
        };
        match &o.seen {
            None => vec![after],
            Some(Ok(l)) if *l == seen => vec![after],
            _ => vec![],
        }
    }
}

fn gen_tx(r: &mut Rng, nv: i64, x: &mut i64, contend: bool) -> Op {
    let mut fresh = || {
        *x += 1;
        *x * 101
    };
    let mut a: Vec<i64> = vec![];
    let mut push = |k: i64, v: i64, x: i64| a.extend([k, v, x]);
    let v = |r: &mut Rng| r.below(nv as u64) as i64;
    match r.weighted(&[14, 14, 12, 20, 10, 10, 10, 10]) {
        // increment
        0 => {
            let q = v(r);
            push(LOAD, q, 0);
            push(ADD, q, fresh());
        }
        // move between two
        1 => {
            let (p, q) = (v(r), v(r));
            push(LOAD, p, 0);
            push(ADD, p, -3);
            push(LOAD, q, 0);
            push(ADD, q, 3);
        }
        // read all
        2 => {
            let up = r.chance(1, 2);
            for i in 0..nv {
                push(LOAD, if up { i } else { nv - 1 - i }, 0);
            }
            return op("ro", &a);
        }
        // write skew: read several, write one
        3 => {
            let q = v(r);
            let n = 1 + r.below(nv as u64);
            for _ in 0..n {
                push(LOAD, v(r), 0);
            }
            push(SUM, q, fresh());
        }
        // blind writes in either order
        4 => {
            let up = r.chance(1, 2);
            let f = fresh();
            for i in 0..nv {
                push(PUT, if up { i } else { nv - 1 - i }, f);
            }
        }
        // one chosen by what was read
        5 => {
            push(LOAD, v(r), 0);
            push(LOADSEL, 0, 0);
            push(SUM, v(r), fresh());
            if r.chance(1, 2) {
                push(LOAD, v(r), 0);
            }
        }
        6 if !contend => return op("mk", &[v(r), fresh()]),
        // attempts given up after storing
        _ => {
            let q = v(r);
            push(LOAD, q, 0);
            push(PUT, v(r), fresh());
            push(GIVEUP, 0, 1 + r.below(3) as i64);
            push(LOAD, v(r), 0);
            push(SUM, q, fresh());
        }
    }
    if r.chance(1, 6) {
        let q = v(r);
        a.extend([LOAD, q, 0]);
    }
    op(if r.chance(1, 12) { "ro" } else { "rw" }, &a)
}

fn run(cx: &mut Cx, what: &str) {
    let plan = cx.plan;
    let nv = plan.c("nv").max(1) as usize;
    let tys: Vec<i64> = (0..nv as i64).map(|i| if plan.c("ty") == 9 { i % 5 } else { plan.c("ty") }).collect();
    // a lock attempt sleeps a millisecond, a thousand times at most: keep that affordable
    sched::s().tick = 20_000;
    sched::s().fair = plan.c("fair").max(500) as u64;
    sched::s().fair_at = 40_000;
    let init: Vec<i64> = (0..nv as i64).map(|i| 1000 + i).collect();
    let hist: Hist<Seen> = Hist::new();
    let retries: simrt::Sh<u64> = simrt::Sh::new(0);
    let (i2, t2) = (init.clone(), tys.clone());
    let Some(w) = cx.solo("new", move || {
        let stm = Stm::default();
        let vars = (0..i2.len()).map(|i| stm.create(enc(t2[i], i2[i]))).collect();
        World { stm, vars, tys: t2 }
    }) else {
        return;
    };
    let (h, se, ops, rt) = (hist.clone(), w.clone(), plan.setup.clone(), retries.clone());
    cx.solo("setup", move || {
        for (j, o) in ops.iter().enumerate() {
            h.run(0, j, o, || se.exec(o, &rt));
        }
    });
    if !cx.ok() {
        return;
    }
    let ts = plan
        .threads
        .iter()
        .enumerate()
        .map(|(i, ops)| {
            let (h, se, ops, rt) = (hist.clone(), w.clone(), ops.clone(), retries.clone());
            let f: TaskFn = Box::new(move || {
                for (j, o) in ops.iter().enumerate() {
                    h.run(i + 1, j, o, || se.exec(o, &rt));
                }
            });
            (format!("user{}", i + 1), f)
        })
        .collect();
    sched::activate(true);
    cx.phase(ts);
    sched::activate(false);
    cx.sample = hist.lines();
    if !cx.ok() {
        return;
    }
    let n = retries.with(|t| *t);
    cx.add("retried_attempts", n);
    if n > 0 {
        cx.count("nontrivial");
    }
    // nothing is locked any more, and the values are those of the last transactions
    let h = hist.clone();
    let fin = cx.solo("final", move || {
        let mut locked = None;
        for (i, v) in w.vars.iter().enumerate() {
            let ver = v.try_get_version();
            let clk = w.stm.get_clock();
            match ver {
                Err(e) => locked = Some(format!("variable {i} is still locked after every transaction returned: {e:?}")),
                Ok(n) if n > clk => locked = Some(format!("variable {i} has version {n}, ahead of the clock {clk}")),
                _ => {}
            }
        }
        let o = op("final", &[]);
        h.run(0, 99, &o, || {
            w.stm
                .read_only(|tx| w.vars.iter().zip(&w.tys).map(|(v, t)| load(tx, v, *t)).collect::<Result<Vec<i64>, _>>())
                .map(|r| r.res)
                .map_err(|e| format!("{e:?}"))
        });
        // each variable can be consumed once its other holders are gone, with its value
        let World { stm, vars, tys } = w;
        let mut out = vec![];
        for (v, t) in vars.into_iter().zip(&tys) {
            out.push(if *t == 0 { v.take::<usize>().ok().map(|x| x as i64) } else { Some(-2) });
        }
        drop(stm);
        (locked, out)
    });
    cx.sample = hist.lines();
    let Some((locked, taken)) = fin else { return };
    if let Some(l) = locked {
        cx.violate(&format!("{what}:left-locked"), l);
        return;
    }
    let all = hist.all();
    for e in &all {
        if let Some(Err(m)) = &e.res {
            cx.violate(&format!("{what}:failed"), format!("{} returned an error: {m}", e.op.s()));
            return;
        }
    }
    if let Some(Ok(l)) = &all.last().and_then(|e| e.res.clone()) {
        for (i, t) in taken.iter().enumerate() {
            if *t != Some(-2) && *t != Some(l[i]) {
                cx.violate(&format!("{what}:take"), format!("taking variable {i} gave {t:?} instead of {}", l[i]));
                return;
            }
        }
    }
    let mut th: Vec<Vec<lin::Entry<TxOp>>> = vec![vec![]; plan.threads.len() + 1].into_iter().map(|_: Vec<u8>| vec![]).collect();
    for e in &all {
        th[e.task].push(lin::Entry {
            inv: e.inv,
            ret: e.ret,
            subs: vec![TxOp { op: e.op.clone(), seen: e.res.clone() }],
            pending: e.ret == u64::MAX,
            label: format!("{} = {:?}", e.op.s(), e.res),
        });
    }
    match lin::check(&TxModel, &[init], &th, 300_000) {
        lin::Verdict::Ok(n) => cx.add("lin_nodes", n),
        lin::Verdict::Unknown => cx.count("lin_unknown"),
        lin::Verdict::Bad(d) => cx.violate(what, format!("no order of the transactions explains what they saw: {d}")),
    }
}

pub struct Serial;
impl Scenario for Serial {
    fn property(&self) -> &'static str {
        "C15"
    }
    fn name(&self) -> &'static str {
        "stm-serial"
    }
    fn quick_runs(&self) -> u64 {
        48000
    }
    fn real(&self) -> &'static str {
        "stronghold-stm transactions and variables as compiled from /repo"
    }
    fn rule(&self) -> &'static str {
        "2-4 threads run random programs of loads and stores (increments, transfers, write skew, blind writes, reads that depend on reads, given-up attempts, own variables) on 1-4 variables of all value types; strict serializability of everything the committed attempts saw, of the final values and of the values taken out"
    }
    fn gen(&self, r: &mut Rng, _k: u64, thorough: bool) -> Plan {
        let mut p = Plan::new("C15", "stm-serial", r.next() >> 1);
        let nv = 1 + r.below(4) as i64;
        p.cfg.insert("nv".into(), nv);
        p.cfg.insert("ty".into(), *r.pick(&[0, 0, 0, 1, 2, 3, 4, 9]));
        p.cfg.insert("fair".into(), 3000);
        p.cfg.insert("spurious".into(), if r.chance(1, 4) { 4 } else { 0 });
        let mut x = 0;
        for _ in 0..r.below(3) {
            let o = gen_tx(r, nv, &mut x, false);
            p.setup.push(o);
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let n = 1 + r.below(if nt == 2 { 6 } else { 4 + 2 * thorough as u64 });
            p.threads.push((0..n).map(|_| gen_tx(r, nv, &mut x, false)).collect());
        }
        p.mem_points = r.chance(1, 2);
        p.sched = gen_sched(r, 400);
        p
    }
    fn run(&self, cx: &mut Cx) {
        run(cx, "serializability")
    }
    fn max_steps(&self) -> u64 {
        6_000_000
    }
}

pub struct Progress;
impl Scenario for Progress {
    fn property(&self) -> &'static str {
        "C16"
    }
    fn name(&self) -> &'static str {
        "stm-progress"
    }
    fn quick_runs(&self) -> u64 {
        30000
    }
    fn real(&self) -> &'static str {
        "stronghold-stm transactions and variables as compiled from /repo"
    }
    fn rule(&self) -> &'static str {
        "2-5 threads run conflicting transactions (opposite access orders, given-up attempts, readers of everything) on 2-5 variables; every call must return within a bounded number of fairly scheduled steps, nothing may stay locked, and the discarded attempts must leave no effect"
    }
    fn gen(&self, r: &mut Rng, _k: u64, thorough: bool) -> Plan {
        let mut p = Plan::new("C16", "stm-progress", r.next() >> 1);
        let nv = 2 + r.below(4) as i64;
        p.cfg.insert("nv".into(), nv);
        p.cfg.insert("ty".into(), *r.pick(&[0, 0, 0, 1, 9]));
        p.cfg.insert("fair".into(), *r.pick(&[1000, 4000]));
        p.cfg.insert("spurious".into(), if r.chance(1, 4) { 4 } else { 0 });
        let mut x = 0;
        let nt = 2 + r.below(4);
        let focus = r.below(3);
        for t in 0..nt {
            let n = 1 + r.below(if nt < 4 { 5 } else { 3 + thorough as u64 });
            let ops = (0..n)
                .map(|_| {
                    if focus == 0 || (focus == 1 && r.chance(1, 2)) {
                        // opposite orders over everything
                        let mut a = vec![];
                        for i in 0..nv {
                            let v = if t % 2 == 0 { i } else { nv - 1 - i };
                            a.extend([LOAD, v, 0]);
                            x += 1;
                            a.extend([ADD, v, x * 7]);
                        }
                        if r.chance(1, 4) {
                            a.extend([GIVEUP, 0, 1 + r.below(4) as i64]);
                        }
                        op("rw", &a)
                    } else {
                        gen_tx(r, nv, &mut x, true)
                    }
                })
                .collect();
            p.threads.push(ops);
        }
        p.mem_points = r.chance(1, 3);
        p.sched = gen_sched(r, 600);
        p
    }
    fn run(&self, cx: &mut Cx) {
        run(cx, "transaction-progress")
    }
    fn max_steps(&self) -> u64 {
        6_000_000
    }
}
