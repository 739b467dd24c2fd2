//! C07: lifetimes of store entries under a clock that is stepped in both directions.
use crate::fw::*;
use crate::persist::restart;
use crate::w::*;
use iota_stronghold::Client;
use simrt::{lin, sched, Rng};
use std::collections::BTreeMap;
use std::time::Duration;

/// Lifetimes: 0 none, -1 zero, -2 the maximum, -3 half of it, -4 three hundred years, else ms.
fn lifetime(d: i64) -> Option<Duration> {
    match d {
        0 => None,
        -1 => Some(Duration::ZERO),
        -2 => Some(Duration::MAX),
        -3 => Some(Duration::from_secs(u64::MAX / 2)),
        -4 => Some(Duration::from_secs(300 * 365 * 86400)),
        -5 => Some(Duration::from_nanos(1)),
        -6 => Some(Duration::from_secs(i64::MAX as u64 - 4_000_000_000)),
        d => Some(Duration::from_millis(d as u64)),
    }
}
const NEVER: i64 = i64::MAX;
fn expiry(clock: i64, d: i64) -> i64 {
    match d {
        0 | -2 | -3 | -6 => NEVER,
        -1 | -5 => clock,
        -4 => clock + 300 * 365 * 86400 * 1000,
        d => clock + d,
    }
}
/// By how many seconds the clock is stepped; now and then by centuries (and not back before its start).
fn step_by(r: &mut Rng, far: bool, gone: &mut i64) -> i64 {
    let s = if far { *r.pick(&[3600, 86400, 40_000_000, 1, 5_000_000_000]) } else { *r.pick(&[1, 1, 2, 3, 10]) };
    let s = if r.chance(1, 3) && (s < 1_000_000_000 || *gone >= s) { -s } else { s };
    *gone += s;
    s
}
fn exec(sess: &mut Sess, o: &Op) -> Res {
    let c = |s: &Sess| -> Option<Client> { s.h.get(&0).cloned() };
    let cl = match o.k.as_str() {
        "step" => {
            sched::s().wall_off += o.n(0) as i128 * 1_000_000_000;
            simrt::vfs::v().bump(if o.n(0) < 0 { "clock:back" } else { "clock:forward" });
            return Res::Ok;
        }
        "create" | "load" | "loads" | "commit" | "wclient" | "unload" => return sess.exec(o),
        _ => match c(sess) {
            Some(c) => c,
            None => return Res::Skip,
        },
    };
    let st = cl.store();
    match o.k.as_str() {
        "sput" => match st.insert(skey(o.n(1)), sval(o.n(2)), lifetime(o.n(3))) {
            Ok(None) => Res::None,
            Ok(Some(b)) => match sval_id(&b) {
                -99 => Res::Bad("a store value that was never written".into()),
                x => Res::Val(x),
            },
            Err(e) => cerr(e),
        },
        "sscan" => match st.reload(engine::store::Cache::create_with_scanner(Duration::from_millis(o.n(1) as u64))) {
            Ok(()) => Res::Ok,
            Err(e) => cerr(e),
        },
        k => store_op(&st, k, o, 1),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Ent {
    x: i64,
    exp: i64,
    /// Was past its expiry at some time.
    over: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct Tab {
    m: BTreeMap<i64, Ent>,
    scan: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
struct CS {
    epoch: u64,
    clock: i64,
    tab: Option<Tab>,
    mem: Option<Tab>,
    disk: Option<Tab>,
    /// Clock readings of an insertion that has begun.
    begun: BTreeMap<usize, i64>,
}
struct CM;
impl CM {
    /// What an access to a key may find, with the state that goes with it.
    fn find(t: &Tab, k: i64, clock: i64) -> Vec<(Option<i64>, Tab)> {
        let mut n = t.clone();
        for e in n.m.values_mut() {
            if clock >= e.exp && e.exp != NEVER {
                e.over = true;
            }
        }
        match n.m.get(&k).cloned() {
            None => vec![(None, n)],
            Some(e) => {
                if e.exp != NEVER && clock >= e.exp {
                    vec![(None, n)]
                } else if e.over && t.scan {
                    // removed by a scan while it was past its time, or not
                    let mut g = n.clone();
                    g.m.remove(&k);
                    vec![(Some(e.x), n), (None, g)]
                } else {
                    vec![(Some(e.x), n)]
                }
            }
        }
    }
}
impl lin::Model for CM {
    type S = CS;
    type O = MOp;
    fn step(&self, s: &CS, o: &MOp) -> Vec<CS> {
        if s.epoch != o.epoch {
            if o.op.k == "restart" && o.epoch == s.epoch + 1 {
                return vec![CS { epoch: o.epoch, clock: s.clock, disk: s.disk.clone(), ..Default::default() }];
            }
            return vec![];
        }
        let mut n = s.clone();
        let k = o.op.n(1);
        let seen = |w: Res| o.res.is_none() || o.res == Some(w);
        let one = |c: bool, n: CS| if c { vec![n] } else { vec![] };
        if o.res == Some(Res::Skip) {
            return vec![n];
        }
        let ok = o.res == Some(Res::Ok);
        match o.op.k.as_str() {
            "step" => {
                n.clock += o.op.n(0) * 1000;
                for t in [&mut n.tab, &mut n.mem, &mut n.disk].into_iter().flatten() {
                    for e in t.m.values_mut() {
                        if e.exp != NEVER && n.clock >= e.exp {
                            e.over = true;
                        }
                    }
                }
                vec![n]
            }
            "again" => one(ok, n),
            "create" => {
                n.tab = Some(Tab::default());
                one(ok, n)
            }
            "commit" => {
                if n.tab.is_some() {
                    n.mem = n.tab.clone();
                }
                n.disk = n.mem.clone();
                one(ok, n)
            }
            "wclient" => {
                n.mem = n.tab.clone();
                one(ok, n)
            }
            "unload" => {
                n.tab = None;
                one(ok, n)
            }
            "loads" => {
                n.mem = s.disk.clone();
                one(ok == s.disk.is_some(), n)
            }
            "load" => {
                n.tab = s.mem.clone();
                one(ok == s.mem.is_some(), n)
            }
            "sscan" => {
                n.tab = Some(Tab { scan: true, ..Default::default() });
                one(ok, n)
            }
            "sclear" => {
                n.tab = Some(Tab::default());
                one(ok, n)
            }
            "sput" => {
                if o.sub == 0 {
                    n.begun.insert(o.id, s.clock);
                    return vec![n];
                }
                let c0 = n.begun.remove(&o.id).unwrap_or(s.clock);
                let t = n.tab.clone().unwrap_or_default();
                let mut out = vec![];
                for (old, t) in CM::find(&t, k, c0) {
                    let mut m = n.clone();
                    let mut t = t;
                    t.m.insert(k, Ent { x: o.op.n(2), exp: expiry(s.clock, o.op.n(3)), over: false });
                    m.tab = Some(t);
                    out.extend(one(seen(old.map(Res::Val).unwrap_or(Res::None)), m));
                }
                out
            }
            "sgoi" => {
                let t = n.tab.clone().unwrap_or_default();
                let mut out = vec![];
                for (old, mut t) in CM::find(&t, k, s.clock) {
                    let mut m = n.clone();
                    if old.is_none() {
                        t.m.insert(k, Ent { x: o.op.n(2), exp: expiry(s.clock, o.op.n(3)), over: false });
                    }
                    m.tab = Some(t);
                    out.extend(one(seen(Res::Val(old.unwrap_or(o.op.n(2)))), m));
                }
                out
            }
            "sget" | "shas" | "sdel" => {
                let t = n.tab.clone().unwrap_or_default();
                let mut out = vec![];
                for (old, mut t) in CM::find(&t, k, s.clock) {
                    let mut m = n.clone();
                    let w = match o.op.k.as_str() {
                        "shas" => Res::Bool(old.is_some()),
                        _ => old.map(Res::Val).unwrap_or(Res::None),
                    };
                    if o.op.k == "sdel" {
                        t.m.remove(&k);
                    }
                    m.tab = Some(t);
                    out.extend(one(seen(w), m));
                }
                out
            }
            "skeys" => {
                let t = n.tab.clone().unwrap_or_default();
                match &o.res {
                    Some(Res::List(l)) => {
                        let known = l.iter().all(|k| t.m.contains_key(k));
                        let all = t.m.iter().all(|(k, e)| l.contains(k) || e.exp != NEVER && (s.clock >= e.exp || e.over && t.scan));
                        one(known && all, n)
                    }
                    None => vec![n],
                    _ => vec![],
                }
            }
            _ => vec![],
        }
    }
}

pub struct ClockS;
impl Scenario for ClockS {
    fn property(&self) -> &'static str {
        "C07"
    }
    fn name(&self) -> &'static str {
        "lifetimes"
    }
    fn quick_runs(&self) -> u64 {
        14000
    }
    fn real(&self) -> &'static str {
        "client store and engine cache (with and without its scanner), snapshot code as compiled from /repo; the system clock is simulated"
    }
    fn rule(&self) -> &'static str {
        "1-3 users of one store insert with lifetimes from nothing to the maximum while the wall clock is stepped forwards and back; commits, reloads and restarts in between; every result is checked against a map with expiry instants"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C07", "lifetimes", r.next() >> 1);
        let nk = 1 + r.below(3) as i64;
        p.cfg.insert("nk".into(), nk);
        let mut x = 0;
        p.setup.push(op("create", &[0]));
        if r.chance(1, 3) {
            p.setup.push(op("sscan", &[0, *r.pick(&[1, 500, 1500, 60_500])]));
        }
        let far = r.chance(1, 3);
        let mut gone = 0;
        let mut step = |r: &mut Rng| op("step", &[step_by(r, far, &mut gone)]);
        let mut store = |r: &mut Rng| {
            let k = r.below(nk as u64) as i64;
            match r.weighted(&[30, 30, 8, 14, 10, 2]) {
                0 => {
                    x += 1;
                    let d = match r.below(12) {
                        0 | 1 => 0,
                        2 => -1,
                        3 => -2,
                        4 => -3,
                        5 => -4,
                        6 => *r.pick(&[-5, -6]),
                        _ if far => *r.pick(&[1_800_500, 3_600_500, 50_000_500, 86_400_500]),
                        _ => *r.pick(&[500, 500, 1500, 2500, 4500, 10_500]),
                    };
                    op("sput", &[0, k, x % NVAL, d])
                }
                1 => op("sget", &[0, k]),
                2 => op("sdel", &[0, k]),
                3 => op("shas", &[0, k]),
                4 => op("skeys", &[0]),
                _ => op("sclear", &[0]),
            }
        };
        let n = 3 + r.below(14);
        for _ in 0..n {
            let o = match r.below(20) {
                0..=5 => step(r),
                6 => op("commit", &[0, 7]),
                7 => op("wclient", &[0]),
                _ => store(r),
            };
            p.setup.push(o);
            if r.chance(1, 12) {
                p.setup.push(op("commit", &[0, 7]));
                p.setup.push(op("unload", &[0]));
                p.setup.push(step(r));
                p.setup.push(op("load", &[0]));
            }
        }
        let nt = *r.pick(&[0, 0, 2, 3]);
        for t in 0..nt {
            let v = (0..2 + r.below(4)).map(|_| if t == 0 && r.chance(1, 2) { step(r) } else { store(r) }).collect();
            p.threads.push(v);
        }
        p.mem_points = r.chance(1, 4);
        p.sched = gen_sched(r, 400);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let nk = plan.c("nk");
        let run_seq = |cx: &mut Cx, mut s: Sess, ops: Vec<Op>| -> Option<Sess> {
            let h = hist.clone();
            cx.solo("seq", move || {
                for (j, o) in ops.iter().enumerate() {
                    h.run(0, j, o, || exec(&mut s, o));
                }
                s
            })
        };
        let look = || -> Vec<Op> {
            let mut o: Vec<Op> = (0..nk).map(|k| op("sget", &[0, k])).collect();
            o.push(op("skeys", &[0]));
            o.extend((0..nk).map(|k| op("shas", &[0, k])));
            o
        };
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = run_seq(cx, s, plan.setup.clone())?;
            let t: Vec<(String, TaskFn)> = plan
                .threads
                .iter()
                .enumerate()
                .filter(|(_, t)| !t.is_empty())
                .map(|(i, ops)| {
                    let (h, mut se, ops) = (hist.clone(), s.clone(), ops.clone());
                    let f: TaskFn = Box::new(move || {
                        for (j, o) in ops.iter().enumerate() {
                            h.run(1 + i, j, o, || exec(&mut se, o));
                        }
                    });
                    (format!("user{i}"), f)
                })
                .collect();
            if !t.is_empty() {
                sched::activate(true);
                cx.phase(t);
                sched::activate(false);
                if !cx.ok() {
                    return None;
                }
            }
            let mut o = look();
            o.push(op("step", &[1 + (plan.seed % 4) as i64]));
            o.extend(look());
            o.push(op("commit", &[0, 7]));
            let s = run_seq(cx, s, o)?;
            std::mem::forget(s);
            let s = restart(cx, &hist, false)?;
            let mut o = vec![op("step", &[(plan.seed % 5) as i64 - 2]), op("loads", &[0, 7]), op("load", &[0])];
            o.extend(look());
            o.push(op("step", &[100_000_000]));
            o.extend(look());
            let s = run_seq(cx, s, o)?;
            std::mem::forget(s);
            Some(())
        })();
        cx.sample = hist.lines();
        if plan.threads.is_empty() {
            cx.count("nontrivial");
        }
        if !cx.ok() {
            return;
        }
        judge(cx, &hist);
    }
}
fn judge(cx: &mut Cx, hist: &Hist<Res>) {
    let all = hist.all();
    let ep = epochs(&all);
    let nt = all.iter().map(|e| e.task).max().unwrap_or(0) + 1;
    let mut th: Vec<Vec<lin::Entry<MOp>>> = vec![vec![]; nt];
    for (id, e) in all.iter().enumerate() {
        if let Some(Res::Bad(b)) = &e.res {
            cx.violate("lifetimes:bad-value", format!("{}: {b}", e.op.s()));
            return;
        }
        let subs: &[u8] = if e.op.k == "sput" { &[0, 1] } else { &[0] };
        th[e.task].push(lin::Entry {
            inv: e.inv,
            ret: e.ret,
            subs: subs.iter().map(|s| MOp { id, task: e.task, epoch: ep(e), op: e.op.clone(), sub: *s, res: e.res.clone() }).collect(),
            pending: e.ret == u64::MAX,
            label: format!("{} = {:?}", e.op.s(), e.res),
        });
    }
    match lin::check(&CM, &[CS::default()], &th, 400_000) {
        lin::Verdict::Ok(n) => cx.add("lin_nodes", n),
        lin::Verdict::Unknown => cx.count("lin_unknown"),
        lin::Verdict::Bad(d) => cx.violate("lifetimes", format!("no order of the operations and clock steps explains the results: {d}")),
    }
}

/// The engine's cache used directly, by one owner.
pub struct CacheS;
fn cache_op(c: &mut engine::store::Cache<Vec<u8>, Vec<u8>>, o: &Op) -> Res {
    let val = |b: Option<Vec<u8>>| match b.map(|b| sval_id(&b)) {
        None => Res::None,
        Some(-99) => Res::Bad("a value that was never inserted".into()),
        Some(x) => Res::Val(x),
    };
    let k = skey(o.n(1));
    match o.k.as_str() {
        "create" => Res::Ok,
        "step" => {
            sched::s().wall_off += o.n(0) as i128 * 1_000_000_000;
            simrt::vfs::v().bump(if o.n(0) < 0 { "clock:back" } else { "clock:forward" });
            Res::Ok
        }
        "sscan" => {
            *c = engine::store::Cache::create_with_scanner(Duration::from_millis(o.n(1) as u64));
            Res::Ok
        }
        "sput" => val(c.insert(k, sval(o.n(2)), lifetime(o.n(3)))),
        "sgoi" => {
            let v = c.get_or_insert(k, || sval(o.n(2)), lifetime(o.n(3))).clone();
            val(Some(v))
        }
        "sget" => val(c.get(&k).cloned()),
        "sdel" => val(c.remove(&k)),
        "shas" => Res::Bool(c.contains_key(&k)),
        "skeys" => {
            let mut l: Vec<i64> = c.keys().iter().filter_map(|k| skey_id(k)).collect();
            l.sort();
            Res::List(l)
        }
        "sclear" => {
            c.clear();
            Res::Ok
        }
        // through the format of snapshots, a clone, or moved into another cache
        "again" => {
            let n: engine::store::Cache<Vec<u8>, Vec<u8>> = match o.n(1) {
                0 => c.clone(),
                _ => match bincode::serialize(&*c).ok().and_then(|b| bincode::deserialize(&b).ok()) {
                    Some(n) => n,
                    None => return Res::Bad("the cache does not survive serialisation".into()),
                },
            };
            *c = n;
            Res::Ok
        }
        k => panic!("harness: unknown operation {k}"),
    }
}
impl Scenario for CacheS {
    fn property(&self) -> &'static str {
        "C07"
    }
    fn name(&self) -> &'static str {
        "cache"
    }
    fn quick_runs(&self) -> u64 {
        30000
    }
    fn real(&self) -> &'static str {
        "engine cache (with and without its scanner) as compiled from /repo; the system clock is simulated"
    }
    fn rule(&self) -> &'static str {
        "one owner of a cache inserts, gets or inserts, looks up, removes, lists, clones and serialises entries with lifetimes from nothing to the maximum while the wall clock is stepped forwards and back; every result is checked against a map with expiry instants"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C07", "cache", r.next() >> 1);
        let nk = 1 + r.below(4) as i64;
        let far = r.chance(1, 3);
        let mut gone = 0;
        let mut x = 0;
        p.setup.push(op("create", &[0]));
        if r.chance(1, 2) {
            p.setup.push(op("sscan", &[0, *r.pick(&[1, 500, 1500, 60_500])]));
        }
        for _ in 0..4 + r.below(25) {
            let k = r.below(nk as u64) as i64;
            x += 1;
            let d = match r.below(12) {
                0 | 1 => 0,
                2 => *r.pick(&[-1, -2, -3, -4]),
                3 => *r.pick(&[-5, -6]),
                _ if far => *r.pick(&[1_800_500, 3_600_500, 50_000_500, 86_400_500]),
                _ => *r.pick(&[500, 1500, 2500, 4500, 10_500]),
            };
            p.setup.push(match r.weighted(&[24, 16, 16, 8, 8, 8, 2, 4, 20]) {
                0 => op("sput", &[0, k, x % NVAL, d]),
                1 => op("sgoi", &[0, k, x % NVAL, d]),
                2 => op("sget", &[0, k]),
                3 => op("sdel", &[0, k]),
                4 => op("shas", &[0, k]),
                5 => op("skeys", &[0]),
                6 => op("sclear", &[0]),
                7 => op("again", &[0, r.below(2) as i64]),
                _ => op("step", &[step_by(r, far, &mut gone)]),
            });
        }
        for k in 0..nk {
            p.setup.push(op("sget", &[0, k]));
        }
        p
    }
    fn run(&self, cx: &mut Cx) {
        let hist: Hist<Res> = Hist::new();
        let (h, ops) = (hist.clone(), cx.plan.setup.clone());
        let r = cx.solo("owner", move || {
            let mut c = engine::store::Cache::new();
            for (j, o) in ops.iter().enumerate() {
                h.run(0, j, o, || cache_op(&mut c, o));
            }
        });
        cx.sample = hist.lines();
        cx.count("nontrivial");
        if r.is_some() && cx.ok() {
            judge(cx, &hist);
        }
    }
}
