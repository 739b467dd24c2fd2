//! C14: synchronisation of vaults within a client and between clients.
use crate::fw::*;
use crate::w::*;
use iota_stronghold::sync::{MergePolicy, SyncClientsConfig};
use iota_stronghold::{Snapshot, SnapshotPath};
use simrt::{sched, vfs, Rng, Sh};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type VaultM = BTreeMap<i64, i64>;
/// client -> vault -> record id (of the location it was written to: vault * 100 + record) -> value
pub type World = BTreeMap<i64, BTreeMap<i64, VaultM>>;

pub fn rid(v: i64, r: i64) -> i64 {
    v * 100 + r
}
/// The complete contents of a snapshot, read with the engine's own types.
pub fn dump_snapshot(s: &Snapshot, nc: i64) -> Result<(World, BTreeMap<i64, BTreeSet<i64>>), String> {
    let mut w = World::new();
    let mut keys: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
    let vids: HashMap<engine::vault::VaultId, i64> = sched::inert(|| (0..12).map(|v| (iota_stronghold::derive_vault_id(vpath(v)), v)).collect());
    let mut rids: HashMap<engine::vault::RecordId, i64> = HashMap::new();
    sched::inert(|| {
        for v in 0..12 {
            for r in (0..24).chain(50..56) {
                rids.insert(loc(v, r).resolve().1, rid(v, r));
            }
        }
    });
    for c in 0..nc {
        let id = client_id(c);
        if !s.has_data(id) {
            continue;
        }
        let (ks, db, _) = s.get_state(id).map_err(|e| format!("client {c} cannot be read from the snapshot: {e}"))?;
        let cw = w.entry(c).or_default();
        let kw = keys.entry(c).or_default();
        for vid in ks.keys() {
            kw.insert(*vids.get(vid).ok_or("a key for an unknown vault")?);
        }
        for vid in db.list_vaults() {
            let v = *vids.get(&vid).ok_or_else(|| format!("client {c} has an unknown vault"))?;
            let key = ks.get(&vid).ok_or_else(|| format!("vault {v} of client {c} has no key"))?;
            let m = cw.entry(v).or_default();
            for r in db.list_records(&vid) {
                let q = *rids.get(&r).ok_or_else(|| format!("vault {v} of client {c} has an unknown record"))?;
                if !db.contains_record(vid, r) {
                    m.insert(q, REVOKED);
                    continue;
                }
                let mut x = -99;
                db.get_guard::<String, _>(key, vid, r, |b| {
                    let g = b.borrow();
                    x = sched::inert(|| (0..NVAL).find(|x| secret(*x)[..] == g[..]).unwrap_or(-99));
                    Ok(())
                })
                .map_err(|e| format!("record {q} of vault {v} of client {c} cannot be read: {e:?}"))?;
                if x == -99 {
                    return Err(format!("record {q} of vault {v} of client {c} holds bytes that were never written"));
                }
                m.insert(q, x);
            }
        }
    }
    Ok((w, keys))
}
pub fn client_id(c: i64) -> engine::vault::ClientId {
    use iota_stronghold::LoadFromPath;
    engine::vault::ClientId::load_from_path(&cpath(c), &cpath(c))
}
/// Saves everything to a file of its own and reads it back.
pub fn dump(sess: &Sess, nc: i64) -> Result<World, String> {
    let p = SnapshotPath::from_path("/simfs/data/probe");
    let key = key_bytes(33);
    sess.sh.commit_with_keyprovider(&p, &keyprov(33)).map_err(|e| format!("the probe commit failed: {e}"))?;
    let mut k = [0u8; 32];
    k.copy_from_slice(&key);
    let s = Snapshot::read_from_snapshot(&p, k, None).map_err(|e| format!("the probe snapshot cannot be read: {e}"))?;
    let w = dump_snapshot(&s, nc)?.0;
    sched::inert(|| {
        std::fs::remove_file("/simfs/data/probe").ok();
    });
    Ok(w)
}
/// Empty vaults are not told apart from absent ones.
pub fn norm(w: &World) -> World {
    w.iter()
        .map(|(c, vs)| (*c, vs.iter().filter(|(_, m)| !m.is_empty()).map(|(v, m)| (*v, m.clone())).collect::<BTreeMap<_, _>>()))
        .collect()
}
/// Selection, mapping and policy in an operation's numbers, from index `o`:
/// policy (0 keep, 1 replace), mask of selected vaults (0: all), mask of selected records (0: all),
/// then the vault each source vault is mapped to (-1: itself).
pub struct Conf {
    pub keep: bool,
    pub vaults: Option<Vec<i64>>,
    /// (vault, records)
    pub recs: BTreeMap<i64, Vec<i64>>,
    pub map: BTreeMap<i64, i64>,
}
impl Conf {
    pub fn of(o: &Op, i: usize, nv: i64, nr: i64) -> Conf {
        let m = o.n(i + 1);
        let rm = o.n(i + 2);
        let bits = |m: i64, n: i64| (0..n).filter(|b| m >> b & 1 == 1).collect::<Vec<i64>>();
        Conf {
            keep: o.n(i) == 0,
            vaults: if m == 0 { None } else { Some(bits(m, nv)) },
            // the record mask applies to the vaults in bits 8.. of it
            recs: bits(rm >> 8, nv).into_iter().map(|v| (v, bits(rm & 255, nr))).collect(),
            map: (0..nv).filter_map(|v| o.a.get(i + 3 + v as usize).filter(|t| **t >= 0).map(|t| (v, *t))).collect(),
        }
    }
    pub fn gen(r: &mut Rng, nv: i64, nr: i64) -> Vec<i64> {
        let m = if r.chance(1, 2) { 0 } else { 1 + r.below((1 << nv) - 1) as i64 };
        let rm = if r.chance(2, 3) { 0 } else { (1 + r.below((1 << nv) - 1) as i64) << 8 | r.below(1 << nr.min(8)) as i64 };
        let mut v = vec![r.below(2) as i64, m, rm];
        let mapped = r.chance(1, 2);
        for _ in 0..nv {
            v.push(if mapped && r.chance(1, 2) { r.below(nv as u64 + 2) as i64 } else { -1 });
        }
        v
    }
    pub fn policy(&self) -> MergePolicy {
        if self.keep {
            MergePolicy::KeepOld
        } else {
            MergePolicy::Replace
        }
    }
    pub fn real(&self) -> SyncClientsConfig {
        let mut c = SyncClientsConfig::new(self.policy());
        if let Some(v) = &self.vaults {
            c.sync_selected_vaults(v.iter().map(|v| vpath(*v)).collect::<Vec<_>>());
        }
        for (v, rs) in &self.recs {
            c.sync_selected_record(vpath(*v), rs.iter().map(|r| rpath(*r)).collect::<Vec<_>>());
        }
        if !self.map.is_empty() {
            c.map_vaults(self.map.iter().map(|(a, b)| (vpath(*a), vpath(*b))).collect());
        }
        c
    }
    /// What the target may hold afterwards (the order of vaults mapped to one name is open).
    pub fn apply(&self, src: &BTreeMap<i64, VaultM>, tgt: &BTreeMap<i64, VaultM>) -> Vec<BTreeMap<i64, VaultM>> {
        self.apply_on(src, tgt, tgt)
    }
    /// The same with the differences computed against `tgt` and applied to `base`.
    pub fn apply_on(&self, src: &BTreeMap<i64, VaultM>, tgt: &BTreeMap<i64, VaultM>, base: &BTreeMap<i64, VaultM>) -> Vec<BTreeMap<i64, VaultM>> {
        let vs: Vec<i64> = src.keys().copied().filter(|v| self.vaults.as_ref().map(|s| s.contains(v)).unwrap_or(true)).collect();
        let mut out = vec![];
        let mut seen = BTreeSet::new();
        for perm in perms(&vs) {
            let mut t = base.clone();
            for v in perm {
                let m = self.map.get(&v).copied().unwrap_or(v);
                let e = t.entry(m).or_default();
                for (q, x) in &src[&v] {
                    if *x == REVOKED {
                        continue;
                    }
                    if let Some(sel) = self.recs.get(&v) {
                        if !sel.iter().any(|r| rid(v, *r) == *q) {
                            continue;
                        }
                    }
                    let old = tgt.get(&m).and_then(|m| m.get(q)).copied();
                    if self.keep && old.map(|x| x != REVOKED).unwrap_or(false) {
                        continue;
                    }
                    e.insert(*q, *x);
                }
            }
            if seen.insert(t.clone()) {
                out.push(t);
            }
        }
        out
    }
}
pub fn perms(v: &[i64]) -> Vec<Vec<i64>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in perms(&rest) {
            p.insert(0, x);
            out.push(p);
        }
    }
    out
}
pub fn exec(sess: &mut Sess, o: &Op, nv: i64, nr: i64) -> Res {
    let h = |s: &Sess, c: i64| s.h.get(&c).cloned();
    match o.k.as_str() {
        // target client, source client, conf
        "syncw" => match (h(sess, o.n(0)), h(sess, o.n(1))) {
            (Some(t), Some(s)) => match t.sync_with(&s, Conf::of(o, 2, nv, nr).real()) {
                Ok(()) => Res::Ok,
                Err(e) => cerr(e),
            },
            _ => Res::Skip,
        },
        // client, source vault, target vault, policy, mask of records (0: all)
        "syncv" => match h(sess, o.n(0)) {
            Some(c) => {
                let sel: Option<Vec<_>> = if o.n(4) == 0 { None } else { Some((0..nr).filter(|b| o.n(4) >> b & 1 == 1).map(|r| loc(o.n(1), r).resolve().1).collect()) };
                let p = if o.n(3) == 0 { MergePolicy::KeepOld } else { MergePolicy::Replace };
                match c.sync_vaults(vpath(o.n(1)), vpath(o.n(2)), sel, p) {
                    Ok(()) => Res::Ok,
                    Err(e) => cerr(e),
                }
            }
            None => Res::Skip,
        },
        _ => sess.exec(o),
    }
}
/// What an operation may leave behind: the states that explain its result.
pub fn model(w: &World, o: &Op, res: &Res, nv: i64, nr: i64) -> Vec<World> {
    let c = o.n(0);
    let put = |t: BTreeMap<i64, VaultM>| {
        let mut n = w.clone();
        n.insert(c, t);
        n
    };
    let empty = BTreeMap::new();
    match o.k.as_str() {
        "syncw" => {
            if *res != Res::Ok {
                return vec![];
            }
            Conf::of(o, 2, nv, nr).apply(w.get(&o.n(1)).unwrap_or(&empty), w.get(&c).unwrap_or(&empty)).into_iter().map(put).collect()
        }
        "syncv" => {
            if *res != Res::Ok {
                return vec![];
            }
            let conf = Conf {
                keep: o.n(3) == 0,
                vaults: Some(vec![o.n(1)]),
                recs: if o.n(4) == 0 { BTreeMap::new() } else { [(o.n(1), (0..nr).filter(|b| o.n(4) >> b & 1 == 1).collect())].into() },
                map: [(o.n(1), o.n(2))].into(),
            };
            let t = w.get(&c).unwrap_or(&empty);
            conf.apply(t, t).into_iter().map(put).collect()
        }
        "create" => {
            let mut n = w.clone();
            n.insert(c, BTreeMap::new());
            if *res == Res::Ok {
                vec![n]
            } else {
                vec![]
            }
        }
        _ => {
            // the model of one client; locations become record ids
            let m = SModel { lax_fail: false, lax_load: false };
            let ob = Obj { vaults: w.get(&c).cloned().unwrap_or_default(), store: BTreeMap::new() };
            let mut q = o.clone();
            let at = |q: &mut Op, v: usize, r: usize| {
                if q.a.len() > r {
                    q.a[r] = rid(q.a[v], q.a[r]);
                }
            };
            match q.k.as_str() {
                "cleanup" | "vexists" => {}
                "copy" => {
                    at(&mut q, 1, 2);
                    at(&mut q, 3, 4);
                }
                _ => at(&mut q, 1, 2),
            }
            let seen = Some(res.clone());
            let mut st = vec![ob];
            let subs: &[u8] = if q.k == "delete" { &[0, 1] } else { &[0] };
            for s in subs {
                st = st.iter().flat_map(|b| m.obj_step(b, &q, *s, &seen)).collect();
            }
            st.into_iter().map(|b| put(b.vaults)).collect()
        }
    }
}
/// Vaults an operation reads and writes, as (client, vault).
fn touches(o: &Op, nv: i64, nr: i64) -> (BTreeSet<(i64, i64)>, BTreeSet<(i64, i64)>) {
    let mut rd = BTreeSet::new();
    let mut wr = BTreeSet::new();
    let c = o.n(0);
    match o.k.as_str() {
        "syncw" => {
            let cf = Conf::of(o, 2, nv, nr);
            for v in cf.vaults.clone().unwrap_or_else(|| (0..nv + 2).collect()) {
                rd.insert((o.n(1), v));
                wr.insert((c, cf.map.get(&v).copied().unwrap_or(v)));
            }
        }
        "syncv" => {
            rd.insert((c, o.n(1)));
            wr.insert((c, o.n(2)));
        }
        "copy" => {
            rd.insert((c, o.n(1)));
            wr.insert((c, o.n(3)));
        }
        "read" | "exists" | "vexists" => {
            rd.insert((c, o.n(1)));
        }
        _ => {
            wr.insert((c, o.n(1)));
        }
    }
    (rd, wr)
}

pub struct SyncS;
impl SyncS {
    fn gen_op(r: &mut Rng, c: i64, nc: i64, nv: i64, nr: i64, x: &mut i64) -> Op {
        match r.below(10) {
            0 | 1 => op("syncv", &[c, r.below(nv as u64 + 1) as i64, r.below(nv as u64 + 2) as i64, r.below(2) as i64, if r.chance(2, 3) { 0 } else { r.below(1 << nr) as i64 }]),
            2..=4 => {
                let s = r.below(nc as u64) as i64;
                let mut a = vec![c, s];
                a.extend(Conf::gen(r, nv, nr));
                op("syncw", &a)
            }
            _ => crate::client::gen_vault_op(r, c, nv, nr, x),
        }
    }
}
impl Scenario for SyncS {
    fn property(&self) -> &'static str {
        "C14"
    }
    fn name(&self) -> &'static str {
        "sync"
    }
    fn quick_runs(&self) -> u64 {
        2400
    }
    fn real(&self) -> &'static str {
        "client (sync_vaults, sync_with, vaults, procedures), engine vault views, snapshot code used to read everything back, as compiled from /repo"
    }
    fn rule(&self) -> &'static str {
        "1-3 clients with up to 3 vaults; random contents, selections, record filters, mappings (also several to one) and policies, repeated; alone, with concurrent users on other vaults (exact) or on the same ones (containment); the complete contents of all clients compared with the model"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C14", "sync", r.next() >> 1);
        let nc = 1 + r.below(3) as i64;
        let nv = 1 + r.below(3) as i64;
        let nr = 1 + r.below(3) as i64;
        for (k, v) in [("nc", nc), ("nv", nv), ("nr", nr)] {
            p.cfg.insert(k.into(), v);
        }
        let mut x = 0;
        for c in 0..nc {
            p.setup.push(op("create", &[c]));
        }
        for _ in 0..2 + r.below(8) {
            let c = r.below(nc as u64) as i64;
            p.setup.push(crate::client::gen_vault_op(r, c, nv, nr, &mut x));
        }
        let threads = *r.pick(&[0, 0, 2, 2, 3]);
        for _ in 0..if threads == 0 { 2 + r.below(10) } else { r.below(4) } {
            let c = r.below(nc as u64) as i64;
            let o = Self::gen_op(r, c, nc, nv, nr, &mut x);
            let again = o.k.starts_with("sync") && r.chance(1, 3);
            p.setup.push(o.clone());
            if r.chance(1, 3) {
                p.setup.push(op("dump", &[]));
            }
            if again {
                p.setup.push(o);
            }
        }
        for t in 0..threads {
            let own = r.chance(1, 2);
            let v = (0..1 + r.below(4))
                .map(|_| {
                    let c = if own { t as i64 % nc } else { r.below(nc as u64) as i64 };
                    Self::gen_op(r, c, nc, nv, nr, &mut x)
                })
                .collect();
            p.threads.push(v);
        }
        p.cfg.insert("probe".into(), r.below(nv as u64 + 1) as i64);
        p.sched = gen_sched(r, 2500);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let (nc, nv, nr) = (plan.c("nc"), plan.c("nv"), plan.c("nr"));
        let hist: Hist<Res> = Hist::new();
        // runs operations and checks each against the model; the states that remain possible
        type Step = (Sess, Vec<(Op, Res, Option<Result<World, String>>)>);
        let steps = |cx: &mut Cx, s: Sess, ops: Vec<Op>| -> Option<Step> {
            let h = hist.clone();
            let mut s = s;
            cx.solo("seq", move || {
                let mut v = vec![];
                for (j, o) in ops.iter().enumerate() {
                    if o.k == "dump" {
                        v.push((o.clone(), Res::Ok, Some(dump(&s, nc))));
                    } else {
                        let r = h.run(0, j, o, || exec(&mut s, o, nv, nr));
                        v.push((o.clone(), r, None));
                    }
                }
                (s, v)
            })
        };
        let judge = |cx: &mut Cx, mut st: Vec<World>, v: Vec<(Op, Res, Option<Result<World, String>>)>| -> Vec<World> {
            for (o, r, d) in v {
                if r == Res::Skip {
                    continue;
                }
                if let Res::Bad(b) = &r {
                    cx.violate("sync:bad-value", format!("{}: {b}", o.s()));
                    return st;
                }
                match d {
                    Some(Err(e)) => {
                        cx.violate("sync:unreadable", e);
                        return st;
                    }
                    Some(Ok(w)) => {
                        let w = norm(&w);
                        cx.count("worlds_compared");
                        let n: Vec<World> = st.iter().filter(|s| norm(s) == w).cloned().collect();
                        if n.is_empty() {
                            cx.violate("sync:contents", format!("the clients hold {w:?}; expected {:?}", norm(&st[0])));
                            return st;
                        }
                        st = n;
                    }
                    None => {
                        let mut n: Vec<World> = vec![];
                        for s in &st {
                            for w in model(s, &o, &r, nv, nr) {
                                if !n.contains(&w) {
                                    n.push(w);
                                }
                            }
                        }
                        if n.is_empty() {
                            cx.violate(&format!("sync:result:{}", o.k), format!("{} = {r:?} with {:?}", o.s(), norm(&st[0])));
                            return st;
                        }
                        n.truncate(64);
                        st = n;
                    }
                }
            }
            st
        };
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let mut ops = plan.setup.clone();
            ops.push(op("dump", &[]));
            let (s, v) = steps(cx, s, ops)?;
            let mut st = judge(cx, vec![World::new()], v);
            if !cx.ok() {
                return None;
            }
            if plan.threads.iter().any(|t| !t.is_empty()) {
                let t: Vec<(String, TaskFn)> = plan
                    .threads
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| !t.is_empty())
                    .map(|(i, ops)| {
                        let (h, mut se, ops) = (hist.clone(), s.clone(), ops.clone());
                        let f: TaskFn = Box::new(move || {
                            for (j, o) in ops.iter().enumerate() {
                                h.run(1 + i, j, o, || exec(&mut se, o, nv, nr));
                            }
                        });
                        (format!("user{}", i + 1), f)
                    })
                    .collect();
                sched::activate(true);
                cx.phase(t);
                sched::activate(false);
                if !cx.ok() {
                    return None;
                }
                let all = hist.all();
                let all: Vec<_> = all.iter().filter(|e| e.task > 0 && e.res != Some(Res::Skip)).collect();
                for e in &all {
                    if let Some(Res::Bad(b)) = &e.res {
                        cx.violate("sync:bad-value", format!("{}: {b}", e.op.s()));
                        return None;
                    }
                    if e.op.k.starts_with("sync") && matches!(e.res, Some(Res::Err(_))) {
                        cx.violate("sync:failed", format!("{} = {:?}", e.op.s(), e.res));
                        return None;
                    }
                }
                // Threads that keep out of each other's way have exact outcomes.
                let apart = all.iter().all(|a| {
                    let (_, wa) = touches(&a.op, nv, nr);
                    all.iter().filter(|b| b.task != a.task).all(|b| {
                        let (rb, wb) = touches(&b.op, nv, nr);
                        wa.is_disjoint(&rb) && wa.is_disjoint(&wb)
                    })
                });
                if apart {
                    cx.count("concurrent_exact");
                    let mut es = all.clone();
                    es.sort_by_key(|e| (e.task, e.idx));
                    let v = es.iter().map(|e| (e.op.clone(), e.res.clone().unwrap(), None)).collect();
                    st = judge(cx, st, v);
                    let (_, v) = steps(cx, s.clone(), vec![op("dump", &[])])?;
                    st = judge(cx, st, v);
                } else {
                    cx.count("concurrent_containment");
                    // every record holds something that was written under its id, in a vault that it could reach
                    let (_, v) = steps(cx, s.clone(), vec![op("dump", &[])])?;
                    match v.into_iter().next().and_then(|x| x.2) {
                        Some(Ok(w)) => {
                            let mut may: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
                            for s in &st {
                                for vs in s.values() {
                                    for m in vs.values() {
                                        for (q, x) in m {
                                            may.entry(*q).or_default().insert(*x);
                                        }
                                    }
                                }
                            }
                            let mut copies = vec![];
                            for e in &all {
                                match e.op.k.as_str() {
                                    "write" | "pwrite" => {
                                        may.entry(rid(e.op.n(1), e.op.n(2))).or_default().insert(e.op.n(3));
                                    }
                                    "copy" => copies.push((rid(e.op.n(1), e.op.n(2)), rid(e.op.n(3), e.op.n(4)))),
                                    _ => {}
                                }
                            }
                            for _ in 0..copies.len() + 1 {
                                for (a, b) in &copies {
                                    let x = may.get(a).cloned().unwrap_or_default();
                                    may.entry(*b).or_default().extend(x);
                                }
                            }
                            let written: BTreeSet<(i64, i64)> = all.iter().flat_map(|e| touches(&e.op, nv, nr).1).collect();
                            for (c, vs) in &w {
                                for (v, m) in vs {
                                    for (q, x) in m {
                                        if *x != REVOKED && !may.get(q).map(|s| s.contains(x)).unwrap_or(false) {
                                            cx.violate("sync:invented", format!("client {c} vault {v} record {q} holds {x}"));
                                        }
                                    }
                                    let old = st.iter().any(|s| s.get(c).and_then(|s| s.get(v)).cloned().unwrap_or_default() == *m);
                                    if !written.contains(&(*c, *v)) && !old {
                                        cx.violate("sync:untouched-changed", format!("client {c} vault {v} was not touched and holds {m:?}"));
                                    }
                                }
                            }
                            for s in st.first() {
                                for (c, vs) in s {
                                    for (v, m) in vs {
                                        if !m.is_empty() && !written.contains(&(*c, *v)) && w.get(c).and_then(|x| x.get(v)).is_none() {
                                            cx.violate("sync:untouched-changed", format!("client {c} vault {v} was not touched and is gone"));
                                        }
                                    }
                                }
                            }
                            st = vec![w];
                        }
                        Some(Err(e)) => cx.violate("sync:unreadable", e),
                        None => {}
                    }
                }
                if !cx.ok() {
                    return None;
                }
            }
            // Once everything is quiet: synchronise again, twice, and look.
            let mut ops = vec![];
            for c in 0..nc {
                for s in 0..nc {
                    if c != s {
                        let mut a = vec![c, s, (plan.seed % 2) as i64, 0, 0];
                        a.extend((0..nv).map(|v| if v == plan.c("probe") { (v + 1) % (nv + 1) } else { -1 }));
                        ops.push(op("syncw", &a));
                        ops.push(op("dump", &[]));
                        ops.push(op("syncw", &a));
                    }
                }
                ops.push(op("syncv", &[c, plan.c("probe"), (plan.c("probe") + 1) % (nv + 1), 1, 0]));
                ops.push(op("dump", &[]));
                for v in 0..nv {
                    for r in 0..nr {
                        ops.push(op("read", &[c, v, r]));
                    }
                }
            }
            let (s, v) = steps(cx, s, ops)?;
            judge(cx, st, v);
            std::mem::forget(s);
            Some(())
        })();
        if hist.all().iter().any(|e| e.op.k.starts_with("sync") && e.res == Some(Res::Ok)) {
            cx.count("nontrivial");
        }
        cx.sample = hist.lines();
        let _ = vfs::v();
    }
}

/// Synchronisation of few or many records while the random source fails.
pub struct SyncCut;
impl Scenario for SyncCut {
    fn property(&self) -> &'static str {
        "C14"
    }
    fn name(&self) -> &'static str {
        "sync-cut"
    }
    fn quick_runs(&self) -> u64 {
        1200
    }
    fn real(&self) -> &'static str {
        "client (sync_vaults, sync_with), engine vault views, snapshot code used to read everything back, as compiled from /repo; the random source is simulated and made to fail"
    }
    fn rule(&self) -> &'static str {
        "2 clients with up to 20 records per vault; one synchronisation while the random source fails at any call: done completely if it says so, else every record as it was or as asked for and nothing else touched; then the same again without faults, complete"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C14", "sync-cut", r.next() >> 1);
        let nv = 1 + r.below(3) as i64;
        let nr = *r.pick(&[1, 2, 3, 5, 9, 20]);
        for (k, v) in [("nv", nv), ("nr", nr)] {
            p.cfg.insert(k.into(), v);
        }
        p.setup = vec![op("create", &[0]), op("create", &[1])];
        let mut x = 0;
        for _ in 0..2 + r.below(3 * nr as u64) {
            x += 1;
            let (c, v, q) = (r.below(2) as i64, r.below(nv as u64) as i64, r.below(nr as u64) as i64);
            p.setup.push(op("write", &[c, v, q, x % NVAL]));
            if r.chance(1, 8) {
                p.setup.push(op("revoke", &[c, v, q]));
            }
        }
        let o = if r.chance(1, 3) {
            op("syncv", &[0, r.below(nv as u64) as i64, r.below(nv as u64 + 1) as i64, r.below(2) as i64, if r.chance(2, 3) { 0 } else { r.below(1 << nr.min(8)) as i64 }])
        } else {
            let mut a = vec![0, 1];
            a.extend(Conf::gen(r, nv, nr));
            op("syncw", &a)
        };
        p.threads.push(vec![o]);
        if r.chance(4, 5) {
            p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(6 + 3 * nr as u64), err: r.pick(&["EIO", "ENOSYS", "EINTR", "short"]).to_string(), count: *r.pick(&[1, 1, 2, 1000]) });
        }
        p.sched = SchedSpec::Seq;
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let (nv, nr) = (plan.c("nv"), plan.c("nr"));
        let Some(o) = plan.threads.first().and_then(|t| t.first()).cloned() else { return };
        type Out = (Result<World, String>, Vec<(Res, u64, Result<World, String>)>);
        let out: Sh<Option<Out>> = Sh::new(None);
        let (out2, o2, setup) = (out.clone(), o.clone(), plan.setup.clone());
        let inside: Sh<Option<u64>> = Sh::new(None);
        let in2 = inside.clone();
        let hard = || vfs::v().fired.iter().filter(|(k, _)| k.starts_with("rand:") && *k != "rand:EINTR" && *k != "rand:short").map(|(_, n)| *n).sum::<u64>();
        sched::activate(true);
        cx.arm();
        vfs::v().armed = false;
        let mut end = cx.phase_raw(vec![(
            "user".to_string(),
            Box::new(move || {
                let mut s = Sess::new();
                for o in &setup {
                    exec(&mut s, o, nv, nr);
                }
                let before = dump(&s, 2);
                out2.with(|x| *x = Some((before, vec![])));
                for armed in [true, false] {
                    let n = hard();
                    in2.with(|x| *x = Some(n));
                    vfs::v().armed = armed;
                    let r = exec(&mut s, &o2, nv, nr);
                    vfs::v().armed = false;
                    in2.with(|x| *x = None);
                    let f = hard() - n;
                    let d = dump(&s, 2);
                    out2.with(|x| x.as_mut().unwrap().1.push((r, f, d)));
                }
                drop(s);
            }),
        )]);
        if end == sched::PhaseEnd::Panic && inside.with(|x| x.map(|n| hard() > n).unwrap_or(false)) {
            cx.count("stopped_without_random_bytes");
            end = sched::PhaseEnd::AllDone;
        }
        cx.judge(end);
        cx.disarm();
        sched::activate(false);
        let Some((before, steps)) = out.with(|x| x.clone()) else { return };
        cx.sample = steps.iter().map(|(r, f, d)| format!("{} = {r:?}, {f} faults, then {d:?}", o.s())).collect();
        if !cx.ok() {
            return;
        }
        let mut w = match before {
            Ok(w) => w,
            Err(e) => return cx.violate("sync-cut:unreadable", e),
        };
        for (r, f, d) in steps {
            let d = match d {
                Ok(d) => d,
                Err(e) => return cx.violate("sync-cut:unreadable", format!("after {} = {r:?}: {e}", o.s())),
            };
            let want: Vec<World> = model(&w, &o, &Res::Ok, nv, nr).iter().map(norm).collect();
            let (was, is) = (norm(&w), norm(&d));
            if r == Res::Ok {
                cx.count("nontrivial");
                if !want.contains(&is) {
                    return cx.violate("sync-cut:contents", format!("{} = Ok with {was:?}: the clients hold {is:?}", o.s()));
                }
            } else if f == 0 {
                return cx.violate("sync-cut:failed", format!("{} = {r:?} without a fault", o.s()));
            } else {
                cx.count("failed_without_random_bytes");
                let get = |w: &World, c: i64, v: i64, q: i64| w.get(&c).and_then(|w| w.get(&v)).and_then(|v| v.get(&q)).copied();
                for c in 0..2 {
                    for v in 0..12 {
                        for q in (0..12).flat_map(|v| (0..24).map(move |r| rid(v, r))) {
                            let x = get(&is, c, v, q);
                            if x != get(&was, c, v, q) && !want.iter().any(|w| get(w, c, v, q) == x) {
                                return cx.violate("sync-cut:torn", format!("{} = {r:?}: client {c} vault {v} record {q} was {:?} and is {x:?}", o.s(), get(&was, c, v, q)));
                            }
                        }
                    }
                }
            }
            w = d;
        }
    }
}
