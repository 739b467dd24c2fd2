//! C11: the keys of snapshots. Shared keys split over two shards, and the key stored in an instance.
use crate::client::*;
use crate::fw::*;
use crate::memory::*;
use crate::persist::*;
use crate::w::*;
use engine::vault::{Key, NCKey};
use iota_stronghold::{KeyProvider, Provider};
use runtime::locked_memory::LockedMemory;
use runtime::memories::buffer::Buffer;
use runtime::memories::frag::FragStrategy;
use runtime::memories::noncontiguous_memory::{NCConfig, NonContiguousMemory};
use simrt::sched::PhaseEnd;
use simrt::{mem, sched, vfs, Rng};
use std::sync::Arc;
use zeroize::Zeroize;

const NKEYS: i64 = 40;
fn key_id(b: &[u8]) -> Res {
    sched::inert(|| match (0..NKEYS).find(|k| key_bytes(*k)[..] == *b) {
        Some(k) => Res::Val(k),
        None => Res::Bad(format!("{} bytes that are no key of this run", b.len())),
    })
}
enum Obj {
    N(NonContiguousMemory),
    P(KeyProvider),
    K(NCKey<Provider>),
}
struct Item {
    o: Obj,
    /// The key it holds (-1: erased).
    k: i64,
}
fn merr<E: std::fmt::Debug>(e: E) -> Res {
    Res::Err(format!("{e:?}").chars().take(40).collect())
}
fn config(n: i64) -> NCConfig {
    match n {
        0..=3 => NCConfig::FullRam,
        4 | 5 => NCConfig::FragAllocation(FragStrategy::Map),
        6 => NCConfig::FragAllocation(FragStrategy::Hybrid),
        _ => NCConfig::FragAllocation(FragStrategy::Direct),
    }
}
fn make(kind: i64, cfg: i64, k: i64) -> Result<Item, Res> {
    let b = sched::inert(|| key_bytes(k));
    let o = match kind {
        0 => Obj::N(NonContiguousMemory::alloc(&b, 32, config(cfg)).map_err(merr)?),
        1 => Obj::P(KeyProvider::try_from(b).map_err(merr)?),
        _ => Obj::K(NCKey::load(b).ok_or(Res::Err("load".into()))?),
    };
    Ok(Item { o, k })
}
impl Item {
    fn unlock(&self) -> Res {
        let b = match &self.o {
            Obj::N(n) => n.unlock(),
            Obj::P(p) => p.try_unlock(),
            Obj::K(n) => n.key.unlock(),
        };
        match b {
            Ok(b) => {
                let g = b.borrow();
                key_id(&g)
            }
            Err(e) => merr(e),
        }
    }
}
struct User {
    shared: Arc<Vec<Item>>,
    own: Vec<Item>,
}
impl User {
    fn at(&self, i: i64) -> Option<&Item> {
        if i >= 100 {
            self.own.get((i - 100) as usize % self.own.len().max(1))
        } else {
            self.shared.get(i as usize % self.shared.len().max(1))
        }
    }
    /// The result and what it has to be (None: nothing in particular, Err("*"): some error).
    fn exec(&mut self, op: &Op) -> (Res, Option<Res>) {
        let val = |k: i64| Some(if k < 0 { Res::Err("*".into()) } else { Res::Val(k) });
        if matches!(op.k.as_str(), "unlock" | "refresh" | "clone" | "wrap" | "eq" | "ser") && self.at(op.n(0)).is_none() {
            return (Res::Skip, None);
        }
        match op.k.as_str() {
            "unlock" => {
                let i = self.at(op.n(0)).unwrap();
                (i.unlock(), val(i.k))
            }
            "refresh" => {
                let i = self.at(op.n(0)).unwrap();
                let r = match &i.o {
                    Obj::N(n) => n.refresh(),
                    Obj::K(n) => n.key.refresh(),
                    Obj::P(_) => return (Res::Skip, None),
                };
                match r {
                    Ok(()) => (Res::Ok, Some(if i.k < 0 { Res::Err("*".into()) } else { Res::Ok })),
                    Err(e) => (merr(e), Some(if i.k < 0 { Res::Err("*".into()) } else { Res::Ok })),
                }
            }
            "clone" => {
                let i = self.at(op.n(0)).unwrap();
                let o = match &i.o {
                    Obj::N(n) => Obj::N(n.clone()),
                    Obj::K(n) => Obj::K(n.clone()),
                    Obj::P(_) => return (Res::Skip, None),
                };
                let k = i.k;
                self.own.push(Item { o, k });
                (Res::Ok, None)
            }
            "new" => match make(op.n(0), op.n(1), op.n(2)) {
                Ok(i) => {
                    self.own.push(i);
                    (Res::Ok, None)
                }
                Err(e) => (e, Some(Res::Ok)),
            },
            "drop" => {
                if self.own.is_empty() {
                    return (Res::Skip, None);
                }
                let n = op.n(0) as usize % self.own.len();
                drop(self.own.remove(n));
                (Res::Ok, None)
            }
            "erase" => {
                if self.own.is_empty() {
                    return (Res::Skip, None);
                }
                let n = op.n(0) as usize % self.own.len();
                let i = &mut self.own[n];
                match &mut i.o {
                    Obj::N(m) => m.zeroize(),
                    Obj::K(m) => m.key.zeroize(),
                    Obj::P(_) => return (Res::Skip, None),
                }
                i.k = -1;
                (Res::Ok, None)
            }
            "update" => {
                if self.own.is_empty() {
                    return (Res::Skip, None);
                }
                let n = op.n(0) as usize % self.own.len();
                if !matches!(self.own[n].o, Obj::N(_)) {
                    return (Res::Skip, None);
                }
                let i = self.own.remove(n);
                let b = sched::inert(|| key_bytes(op.n(1)));
                let buf = Buffer::alloc(&b, 32);
                match i.o {
                    Obj::N(m) => match m.update(buf, 32) {
                        Ok(m) => {
                            self.own.push(Item { o: Obj::N(m), k: op.n(1) });
                            (Res::Ok, Some(Res::Ok))
                        }
                        Err(e) => (merr(e), Some(Res::Ok)),
                    },
                    _ => unreachable!(),
                }
            }
            // a vault key wrapped by one key opens with an equal one and only with that
            "wrap" => match (self.at(op.n(0)), self.at(op.n(1))) {
                (Some(Item { o: Obj::K(a), k }), Some(Item { o: Obj::K(b), k: k2 })) if *k >= 0 && *k2 >= 0 => {
                    let data: Key<Provider> = match Key::load(sched::inert(|| key_bytes(op.n(2)))) {
                        Some(d) => d,
                        None => return (Res::Err("load".into()), Some(Res::Ok)),
                    };
                    let c = match a.encrypt_key(&data, b"ad") {
                        Ok(c) => c,
                        Err(e) => return (merr(e), Some(Res::Ok)),
                    };
                    let want = if k == k2 { Res::Val(op.n(2)) } else { Res::Err("*".into()) };
                    match b.decrypt_key(c, b"ad") {
                        Ok(d) => (key_id(&d.key.borrow()), Some(want)),
                        Err(e) => (merr(e), Some(want)),
                    }
                }
                _ => (Res::Skip, None),
            },
            "eq" => match (self.at(op.n(0)), self.at(op.n(1))) {
                (Some(Item { o: Obj::K(a), k }), Some(Item { o: Obj::K(b), k: k2 })) if *k >= 0 && *k2 >= 0 => (Res::Bool(a == b), Some(Res::Bool(k == k2))),
                _ => (Res::Skip, None),
            },
            "ser" => match self.at(op.n(0)) {
                Some(Item { o: Obj::N(n), k }) if *k >= 0 => {
                    let k = *k;
                    let b = match bincode::serialize(n) {
                        Ok(b) => b,
                        Err(e) => return (merr(e), Some(Res::Ok)),
                    };
                    match bincode::deserialize::<NonContiguousMemory>(&b) {
                        Ok(m) => {
                            let i = Item { o: Obj::N(m), k };
                            let r = i.unlock();
                            self.own.push(i);
                            (r, val(k))
                        }
                        Err(e) => (merr(e), val(k)),
                    }
                }
                _ => (Res::Skip, None),
            },
            // providers made from pass phrases
            "phrase" => {
                let p: Vec<u8> = sched::inert(|| {
                    let mut v = vec![0; op.n(1) as usize];
                    Rng::new(op.n(1) as u64 + 77).fill(&mut v);
                    v
                });
                let (k, want) = if op.n(0) == 0 {
                    let mut w = p.clone();
                    w.resize(32, 0);
                    (KeyProvider::with_passphrase_truncated(p), w)
                } else {
                    use crypto::hashes::Digest;
                    let w = crypto::hashes::blake2b::Blake2b256::digest(&p).to_vec();
                    (KeyProvider::with_passphrase_hashed_blake2b(p), w)
                };
                match k.map_err(merr).and_then(|k| k.try_unlock().map_err(merr)) {
                    Ok(b) => {
                        let g = b.borrow();
                        (if g[..] == want[..] { Res::Ok } else { Res::Bad("another key than the pass phrase gives".into()) }, Some(Res::Ok))
                    }
                    Err(e) => (e, Some(Res::Ok)),
                }
            }
            k => panic!("harness: unknown operation {k}"),
        }
    }
}

pub struct KeysS;
impl Scenario for KeysS {
    fn property(&self) -> &'static str {
        "C11"
    }
    fn name(&self) -> &'static str {
        "shared-keys"
    }
    fn quick_runs(&self) -> u64 {
        20000
    }
    fn real(&self) -> &'static str {
        "runtime (non-contiguous memory, fragments, guarded buffers), engine key types and the client's key provider as compiled from /repo; memory calls and random bytes are simulated"
    }
    fn rule(&self) -> &'static str {
        "2-4 users unlock, refresh, clone, drop, erase, update, serialise, wrap with and compare keys they share; random bytes and memory calls fail in some runs; every unlocked value must be the key, errors only under faults or for erased keys, and at the end the key must be in no memory region"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C11", "shared-keys", r.next() >> 1);
        let ns = 1 + r.below(3);
        let wide = r.chance(1, 30);
        let cfg = r.below(if wide { 8 } else { 6 }) as i64;
        for _ in 0..ns {
            let kind = r.below(3) as i64;
            p.setup.push(op("new", &[kind, cfg, r.below(3) as i64]));
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..2 + r.below(6) {
                let any = |r: &mut Rng| if r.chance(1, 3) { 100 + r.below(3) as i64 } else { r.below(3) as i64 };
                let a = any(r);
                v.push(match r.weighted(&[30, 16, 12, 6, 5, 4, 6, 6, 6, 3, 2]) {
                    0 => op("unlock", &[a]),
                    1 => op("refresh", &[a]),
                    2 => op("clone", &[a]),
                    3 => op("drop", &[r.below(3) as i64]),
                    4 => op("erase", &[r.below(3) as i64]),
                    5 => op("update", &[r.below(3) as i64, r.below(6) as i64]),
                    6 => op("new", &[r.below(3) as i64, cfg, r.below(6) as i64]),
                    7 => op("wrap", &[a, any(r), 10 + r.below(4) as i64]),
                    8 => op("eq", &[a, any(r)]),
                    9 => op("ser", &[a]),
                    _ => op("phrase", &[r.below(2) as i64, *r.pick(&[0, 1, 31, 32, 33, 100])]),
                });
            }
            p.threads.push(v);
        }
        match r.below(8) {
            0 => p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(12), err: r.pick(&["EIO", "EIO", "short", "EINTR"]).to_string(), count: 1 + r.below(30) }),
            1 => {
                p.cfg.insert("mlock".into(), 1 + r.below(3) as i64);
            }
            2 => {
                p.cfg.insert("mmap".into(), r.below(30) as i64 + 1);
            }
            3 => {
                p.cfg.insert("mprotect".into(), r.below(60) as i64 + 1);
            }
            _ => {}
        }
        p.mem_points = r.chance(1, 4);
        p.sched = gen_sched(r, 600);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        for k in 0..20 {
            let b = key_bytes(k);
            mem::m().needles.push((format!("key {k}"), b));
        }
        let setup = plan.setup.clone();
        let shared = match cx.solo("new", move || setup.iter().filter_map(|o| make(o.n(0), o.n(1), o.n(2)).ok()).collect::<Vec<_>>()) {
            Some(s) => Arc::new(s),
            None => return,
        };
        let hist: Hist<(Res, Option<Res>)> = Hist::new();
        let keep: simrt::Sh<Vec<Item>> = simrt::Sh::new(vec![]);
        let t = plan
            .threads
            .iter()
            .enumerate()
            .filter(|(_, o)| !o.is_empty())
            .map(|(i, ops)| {
                let (h, ops, keep) = (hist.clone(), ops.clone(), keep.clone());
                let mut u = User { shared: shared.clone(), own: vec![] };
                let f: TaskFn = Box::new(move || {
                    for (j, o) in ops.iter().enumerate() {
                        h.run(i, j, o, || u.exec(o));
                    }
                    keep.with(|k| k.append(&mut u.own));
                });
                (format!("user{i}"), f)
            })
            .collect();
        mem_faults(plan);
        sched::activate(true);
        cx.arm();
        let e = cx.phase_raw(t);
        cx.disarm();
        sched::activate(false);
        let failed = mem_faults_end() || vfs::v().fired.keys().any(|k| k.starts_with("rand:E") && k != "rand:EINTR");
        cx.sample = hist.lines();
        let all = hist.all();
        if all.iter().any(|h| h.res.as_ref().map(|r| matches!(r.0, Res::Val(_))).unwrap_or(false)) {
            cx.count("nontrivial");
        }
        for h in &all {
            let Some((got, want)) = &h.res else { continue };
            let bad = match (got, want) {
                (Res::Bad(_), _) => true,
                (Res::Err(_), Some(Res::Err(_))) => false,
                (Res::Err(_), Some(_)) => !failed,
                (g, Some(w)) => g != w,
                _ => false,
            };
            if bad {
                cx.violate("shared-keys:result", format!("{} gave {got:?} instead of {:?}", h.op.s(), want.as_ref().unwrap()));
            }
        }
        if e == PhaseEnd::Panic && failed {
            // an abort of the process
            cx.count("aborted_by_fault");
            return;
        }
        if e != PhaseEnd::AllDone {
            let m = sched::s().panic_msg.clone();
            cx.violate("shared-keys:stopped", format!("{e:?} {m} {}", sched::blocked_summary()));
            return;
        }
        let g = mem::guarded_secrets();
        if let Some((n, _)) = g.iter().next() {
            cx.violate("shared-keys:exposed", format!("{n} lies whole in a memory region although nothing uses it"));
        }
        let last: Vec<Res> = match cx.solo("last", {
            let s = shared.clone();
            move || s.iter().map(|i| i.unlock()).collect()
        }) {
            Some(l) => l,
            None => return,
        };
        for (i, r) in last.iter().enumerate() {
            if *r != Res::Val(shared[i].k) {
                cx.violate("shared-keys:changed", format!("in the end object {i} gives {r:?} instead of key {}", shared[i].k));
            }
        }
        cx.solo("drop", move || {
            drop(keep.with(|k| std::mem::take(k)));
            drop(shared);
        });
        if let Some(l) = mem::m().leaks.first().cloned() {
            cx.violate("shared-keys:not-wiped", l);
        }
        if mem::open_regions() > 0 && !failed {
            cx.violate("shared-keys:open", "a guarded region is accessible although nothing borrows it".into());
        }
    }
}

pub struct CustodyS;
impl Scenario for CustodyS {
    fn property(&self) -> &'static str {
        "C11"
    }
    fn name(&self) -> &'static str {
        "stored-key"
    }
    fn quick_runs(&self) -> u64 {
        7000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk"
    }
    fn rule(&self) -> &'static str {
        "1-3 users store snapshot keys in the instance (in places of their own, shared or named like a client), commit with the stored key and with key providers, load snapshots and clients, save, clear and write; afterwards a new process opens the file with every key; linearizability against the model of stored key, saved states and files"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C11", "stored-key", r.next() >> 1);
        let mut d = Dims::gen(r, &mut p);
        d.nv = 1;
        d.nk = 1;
        d.nr = d.nr.min(2);
        for (k, v) in [("nv", d.nv), ("nr", d.nr), ("nk", d.nk)] {
            p.cfg.insert(k.into(), v);
        }
        let mut x = 0;
        d.setup(r, &mut p, &mut x, 3);
        let variant = |r: &mut Rng| *r.pick(&[0, 0, 1, 2, 2, 3, 4]);
        let mut keyop = |r: &mut Rng, x: &mut i64| match r.weighted(&[22, 30, 14, 10, 10, 6, 8, 2, 8]) {
            0 => op("setkey", &[3 + r.below(2) as i64, variant(r)]),
            1 => op("commitk", &[0]),
            2 => op("commit", &[0, 7]),
            3 => op("loads", &[0, *r.pick(&[3, 4, 7])]),
            4 => op("loadf", &[r.below(d.nc as u64) as i64, 0, *r.pick(&[3, 4, 7])]),
            5 => op("unload", &[r.below(d.nc as u64) as i64]),
            6 => op("wclient", &[r.below(d.nc as u64) as i64]),
            7 => op("clear", &[]),
            _ => d.write_op(r, x),
        };
        for _ in 0..r.below(6) {
            let o = keyop(r, &mut x);
            p.setup.push(o);
        }
        let nt = 1 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(if nt < 3 { 4 } else { 3 }) {
                let o = keyop(r, &mut x);
                v.push(o);
            }
            p.threads.push(v);
        }
        p.mem_points = r.chance(1, 6);
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 3000) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        for k in [3, 4, 7] {
            mem::m().needles.push((format!("snapshot key {k}"), key_bytes(k)));
        }
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            let s = seq(cx, &hist, s, vec![op("commitk", &[1])], 0)?;
            if let Some((n, _)) = mem::guarded_secrets().iter().next() {
                cx.violate("stored-key:exposed", format!("{n} lies whole in a memory region although nothing uses it"));
            }
            std::mem::forget(s);
            let mut s = restart(cx, &hist, false)?;
            for p in [0, 1] {
                let mut ops: Vec<Op> = [3, 4, 7].iter().map(|k| op("loads", &[p, *k])).collect();
                if p == 0 {
                    for c in 0..d.nc {
                        ops.push(op("load", &[c]));
                    }
                    ops.extend(d.observe());
                }
                s = seq(cx, &hist, s, ops, 0)?;
            }
            if hist.all().iter().any(|e| e.op.k == "commitk" && e.res == Some(Res::Ok)) {
                cx.count("nontrivial");
            }
            std::mem::forget(s);
            Some(())
        })();
        verify(cx, &hist, false, "stored-key");
    }
}
