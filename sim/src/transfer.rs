//! C18: client data exported by one party and imported by another over an unreliable network.
use crate::fw::*;
use crate::sync::*;
use crate::w::*;
use crypto::keys::x25519;
use iota_stronghold::sync::{MergePolicy, SyncSnapshotsConfig};
use iota_stronghold::{Location, Snapshot, SnapshotPath, UseKey};
use simrt::{sched, vfs, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const NC: i64 = 3;

fn sk(party: i64, gen: i64) -> [u8; 32] {
    let mut b = [0u8; 32];
    Rng::new(0x5e4d ^ (party * 1000 + gen) as u64).fill(&mut b);
    b
}
pub fn secret_key(party: i64, gen: i64) -> x25519::SecretKey {
    x25519::SecretKey::from_bytes(sk(party, gen))
}
pub fn pk(party: i64, gen: i64) -> x25519::PublicKey {
    x25519::SecretKey::from_bytes(sk(party, gen)).public_key()
}
fn skloc() -> Location {
    Location::generic("exchange", "local-sk")
}
struct Party {
    snap: Snapshot,
    gen: i64,
}
#[derive(Clone)]
struct Msg {
    to: i64,
    gen: i64,
    pk: [u8; 32],
    bytes: Vec<u8>,
    /// What it carries.
    world: World,
}
struct Net {
    p: Vec<Party>,
    m: Vec<Msg>,
}
/// What a client's store holds; stores are never exported.
fn note(q: i64, c: i64) -> Vec<u8> {
    let mut b = vec![0u8; 24];
    Rng::new(0x4073 ^ (q * 100 + c) as u64).fill(&mut b);
    b
}
/// What an exported message carries beyond what was selected.
fn too_much(q: i64, o: &Op, nv: i64, nr: i64, have: &World, chosen: &BTreeSet<(i64, i64)>, plain: &[u8]) -> Option<String> {
    let has = |b: &[u8]| plain.windows(b.len()).any(|w| w == b);
    for c in 0..NC {
        if has(&note(q, c)) {
            return Some(format!("what the store of client {c} holds"));
        }
        if !chosen.iter().any(|(d, _)| *d == c) && has(&crate::removal::client_id(c)) {
            return Some(format!("client {c}, which was not selected"));
        }
    }
    let picked = |r: i64| o.n(3) < 0 || o.n(3) >> r & 1 == 1;
    let mut may: BTreeSet<i64> = BTreeSet::new();
    for (_, v) in chosen {
        may.extend((0..nr).filter(|r| picked(*r)).map(|r| rid(*v, r)));
    }
    for (c, vs) in have {
        for (v, m) in vs {
            if !chosen.iter().any(|(_, x)| x == v) && has(iota_stronghold::derive_vault_id(vpath(*v)).as_ref()) {
                return Some(format!("vault {v}, which was not selected"));
            }
            for r in m.keys().filter(|r| !may.contains(r)) {
                if (0..nr).any(|k| (0..nv).any(|x| rid(x, k) == *r && has(&crate::removal::record_id(x, k)))) {
                    return Some(format!("record {r} of vault {v} of client {c}, which was not selected"));
                }
            }
        }
    }
    None
}
fn fkey(p: i64) -> [u8; 32] {
    let mut k = [0u8; 32];
    k.copy_from_slice(&key_bytes(20 + p));
    k
}
fn path(p: i64) -> SnapshotPath {
    SnapshotPath::from_path(format!("/simfs/data/party{p}"))
}
impl Party {
    fn save(&self, p: i64) -> Result<(), String> {
        self.snap.write_to_snapshot(&path(p), UseKey::Key(fkey(p))).map_err(|e| format!("{e}"))
    }
    fn open(p: i64, gen: i64) -> Result<Party, String> {
        let mut snap = Snapshot::read_from_snapshot(&path(p), fkey(p), None).map_err(|e| format!("{e}"))?;
        snap.store_secret_key(sk(p, gen), skloc()).map_err(|e| format!("{e}"))?;
        Ok(Party { snap, gen })
    }
}
fn conf_at(i: usize, nv: i64, c: i64) -> usize {
    i + 2 + NC as usize + c as usize * (4 + nv as usize)
}
/// policy, mask of clients (0: all), where each client goes (-1: itself), then for each client a flag and a Conf.
fn config(o: &Op, i: usize, nv: i64, nr: i64) -> SyncSnapshotsConfig {
    let mut c = SyncSnapshotsConfig::new(if o.n(i) == 0 { MergePolicy::KeepOld } else { MergePolicy::Replace });
    if o.n(i + 1) != 0 {
        c.sync_selected_clients((0..NC).filter(|b| o.n(i + 1) >> b & 1 == 1).map(cpath).collect::<Vec<_>>());
    }
    let m: HashMap<Vec<u8>, Vec<u8>> = (0..NC).filter(|c| o.n(i + 2 + *c as usize) >= 0).map(|c| (cpath(c), cpath(o.n(i + 2 + c as usize)))).collect();
    if !m.is_empty() {
        c.map_clients(m);
    }
    for cl in 0..NC {
        let j = conf_at(i, nv, cl);
        if o.n(j) == 1 {
            c.config_client_sync(cpath(cl), Conf::of(o, j + 1, nv, nr).real());
        }
    }
    c
}
fn merged(o: &Op, i: usize, nv: i64, nr: i64, msg: &World, tgt: &World) -> Vec<World> {
    let cs: Vec<i64> = msg.keys().copied().filter(|c| o.n(i + 1) == 0 || o.n(i + 1) >> c & 1 == 1).collect();
    let mut out: Vec<World> = vec![];
    let empty = BTreeMap::new();
    for perm in perms(&cs) {
        let mut st = vec![tgt.clone()];
        for c in perm {
            let m = match o.n(i + 2 + c as usize) {
                -1 => c,
                m => m,
            };
            let j = conf_at(i, nv, c);
            let conf = if o.n(j) == 1 {
                Conf::of(o, j + 1, nv, nr)
            } else {
                Conf { keep: o.n(i) == 0, vaults: None, recs: BTreeMap::new(), map: BTreeMap::new() }
            };
            let mut n = vec![];
            for s in &st {
                for t in conf.apply_on(&msg[&c], tgt.get(&m).unwrap_or(&empty), s.get(&m).unwrap_or(&empty)) {
                    let mut w = s.clone();
                    w.insert(m, t);
                    n.push(w);
                }
            }
            st = n;
        }
        for s in st {
            if !out.contains(&s) {
                out.push(s);
            }
        }
    }
    out
}
fn tidy(w: &World) -> World {
    norm(w).into_iter().filter(|(_, v)| !v.is_empty()).collect()
}
fn world(p: &Party) -> Result<World, String> {
    dump_snapshot(&p.snap, NC).map(|x| x.0)
}
/// The clients that a party's snapshot knows, with what their stores hold.
type Stores = BTreeMap<i64, BTreeMap<Vec<u8>, Option<Vec<u8>>>>;
fn stores(p: &Party) -> Result<Stores, String> {
    let mut m = Stores::new();
    for c in (0..NC).filter(|c| p.snap.has_data(client_id(*c))) {
        let (_, _, st) = p.snap.get_state(client_id(c)).map_err(|e| format!("client {c}: {e}"))?;
        m.insert(c, st.keys().into_iter().map(|k| (k.clone(), st.get(&k).cloned())).collect());
    }
    Ok(m)
}
/// What an import did to the recipient's other data; `may` are the clients that it may create.
fn other_changes(before: &Stores, after: &Stores, may: &BTreeSet<i64>) -> Option<String> {
    for (c, st) in before {
        match after.get(c) {
            None => return Some(format!("client {c} is gone")),
            Some(now) if now != st => return Some(format!("the store of client {c} has {} entries instead of {}, or others", now.len(), st.len())),
            _ => {}
        }
    }
    for (c, st) in after {
        if !before.contains_key(c) && !may.contains(c) {
            return Some(format!("there is a client {c} now"));
        }
        if !before.contains_key(c) && !st.is_empty() {
            return Some(format!("the store of the new client {c} is not empty"));
        }
    }
    None
}
/// Damages a message; false: it is as it was sent.
fn damage(b: &mut Vec<u8>, kind: i64, m1: i64, m2: i64, others: &[Vec<u8>]) -> bool {
    let old = b.clone();
    let n = b.len().max(1);
    match kind {
        1 => b.truncate(m1 as usize % n),
        2 => {
            if !b.is_empty() {
                // the header is as likely as everything else
                let i = if m2 & 8 == 0 { m1 as usize % b.len().min(60) } else { m1 as usize % b.len() };
                b[i] ^= 1 << (m2 & 7);
            }
        }
        3 => b.extend(std::iter::repeat(m2 as u8).take(1 + m1 as usize % 70)),
        4 => {
            let i = m1 as usize % n;
            let e = (i + 1 + m2 as usize % 20).min(b.len());
            for x in &mut b[i.min(e)..e] {
                *x = 0;
            }
        }
        5 => {
            // the head of one message with the tail of another
            if let Some(o) = others.get(m1 as usize % others.len().max(1)) {
                let i = [32, 48, 60, 10][m2 as usize % 4].min(b.len()).min(o.len());
                let mut x = b[..i].to_vec();
                x.extend_from_slice(&o[i..]);
                *b = x;
            }
        }
        6 => {
            Rng::new(m1 as u64).fill(&mut b[..]);
        }
        _ => {}
    }
    *b != old
}

/// What a sender that knows the keys may send instead of an export.
fn malform(pt: Vec<u8>, kind: i64, m1: i64, m2: i64) -> Vec<u8> {
    let mut r = Rng::new((m1 * 256 + m2) as u64);
    let flip = |b: &mut Vec<u8>, r: &mut Rng| {
        for _ in 0..1 + r.below(3) {
            if !b.is_empty() {
                let i = if r.chance(1, 2) { r.below(b.len() as u64) } else { r.below(b.len().min(40) as u64) } as usize;
                b[i] = match r.below(4) {
                    0 => 0xff,
                    1 => 0,
                    _ => b[i] ^ (1 << r.below(8)),
                };
            }
        }
    };
    let unpacked = engine::snapshot::decompress(&pt).unwrap_or_default();
    match kind {
        7 => {
            let mut u = unpacked;
            flip(&mut u, &mut r);
            engine::snapshot::compress(&u)
        }
        8 => {
            let mut p = pt;
            flip(&mut p, &mut r);
            p
        }
        9 => {
            let mut u = vec![0u8; r.below(200) as usize];
            r.fill(&mut u);
            if r.chance(1, 2) {
                u
            } else {
                engine::snapshot::compress(&u)
            }
        }
        _ => {
            let mut u = unpacked;
            u.truncate(m1 as usize % (u.len() + 1));
            if r.chance(1, 2) {
                engine::snapshot::compress(&u)
            } else {
                let mut p = pt;
                p.truncate(m1 as usize % (p.len() + 1));
                p
            }
        }
    }
}

pub struct Transfer;
impl Scenario for Transfer {
    fn property(&self) -> &'static str {
        "C18"
    }
    fn name(&self) -> &'static str {
        "transfer"
    }
    fn quick_runs(&self) -> u64 {
        2600
    }
    fn real(&self) -> &'static str {
        "snapshot export, import and merge, encryption and compression, vault views, key store, commit and load, as compiled from /repo; the network between the parties is simulated"
    }
    fn rule(&self) -> &'static str {
        "2-3 parties with their own snapshots export selected records to each other; messages are lost, duplicated, reordered, delayed past key changes, truncated, altered, spliced, extended and misdelivered; after every delivery the recipient's complete contents are compared with a model"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C18", "transfer", r.next() >> 1);
        let np = 2 + r.below(2) as i64;
        let nv = 1 + r.below(3) as i64;
        let nr = 1 + r.below(3) as i64;
        for (k, v) in [("np", np), ("nv", nv), ("nr", nr)] {
            p.cfg.insert(k.into(), v);
        }
        let mut x = 0;
        let mut edit = |r: &mut Rng, q: i64, x: &mut i64| {
            let c = r.below(NC as u64 - 1) as i64;
            let (v, k) = (r.below(nv as u64) as i64, r.below(nr as u64) as i64);
            match r.below(8) {
                0 => op("prevoke", &[q, c, v, k]),
                1 => op("pdelete", &[q, c, v, k]),
                _ => {
                    *x += 1;
                    op("pwrite", &[q, c, v, k, *x % NVAL])
                }
            }
        };
        for q in 0..np {
            for _ in 0..r.below(5) + if q == 0 { 1 } else { 0 } {
                let o = edit(r, q, &mut x);
                p.setup.push(o);
            }
        }
        let n = 4 + r.below(10);
        let mut msgs = 0;
        for _ in 0..n {
            let q = r.below(np as u64) as i64;
            let o = match r.below(12) {
                0 => edit(r, q, &mut x),
                1 => op("rekey", &[q]),
                2 => op("reopen", &[q]),
                3..=5 => {
                    msgs += 1;
                    let mut to = r.below(np as u64) as i64;
                    if to == q {
                        to = (to + 1) % np;
                    }
                    // mask of (client, vault) pairs, mask of records
                    let m = if r.chance(1, 2) { -1 } else { r.below(1 << (2 * nv)) as i64 };
                    let rm = if r.chance(1, 2) { -1 } else { r.below(1 << nr) as i64 };
                    op("export", &[q, to, m, rm])
                }
                6 if msgs > 0 => op("lose", &[r.below(6) as i64]),
                _ => {
                    let kind = if r.chance(3, 5) { 0 } else { 1 + r.below(10) as i64 };
                    let mut a = vec![
                        if r.chance(2, 3) { -1 } else { r.below(6) as i64 },
                        if r.chance(5, 6) { -1 } else { r.below(np as u64) as i64 },
                        kind,
                        r.below(100_000) as i64,
                        r.below(256) as i64,
                        if r.chance(7, 8) { 0 } else { 1 },
                        r.below(2) as i64,
                        if r.chance(2, 3) { 0 } else { 1 + r.below(7) as i64 },
                    ];
                    let mapped = r.chance(1, 3);
                    for _ in 0..NC {
                        a.push(if mapped && r.chance(1, 2) { r.below(NC as u64) as i64 } else { -1 });
                    }
                    for _ in 0..NC {
                        a.push(r.chance(1, 3) as i64);
                        a.extend(Conf::gen(r, nv, nr));
                    }
                    op("deliver", &a)
                }
            };
            p.setup.push(o.clone());
            if o.k == "deliver" && r.chance(1, 3) {
                p.setup.push(o);
            }
        }
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let (np, nv, nr) = (plan.c("np"), plan.c("nv"), plan.c("nr"));
        let ops = plan.setup.clone();
        let out = cx.solo("parties", move || {
            let mut log: Vec<String> = vec![];
            let mut counts: BTreeMap<String, u64> = BTreeMap::new();
            let r = go(np, nv, nr, &ops, &mut log, &mut counts);
            (r, log, counts)
        });
        if let Some((r, log, counts)) = out {
            cx.sample = log;
            for (k, n) in counts {
                cx.add(&k, n);
            }
            if cx.counts.get("delivered_ok").copied().unwrap_or(0) > 0 {
                cx.count("nontrivial");
            }
            if let Err((s, m)) = r {
                cx.violate(&s, m);
            }
        }
        sched::s();
    }
}
fn go(np: i64, nv: i64, nr: i64, ops: &[Op], log: &mut Vec<String>, counts: &mut BTreeMap<String, u64>) -> Result<(), (String, String)> {
    let bad = |s: &str, m: String| Err((format!("transfer:{s}"), m));
    let mut bump = |k: &str| *counts.entry(k.to_string()).or_insert(0) += 1;
    // every party starts with an empty snapshot on disk
    let mut net = Net { p: vec![], m: vec![] };
    let mut models: Vec<Vec<World>> = vec![];
    for q in 0..np {
        let p = Party { snap: Snapshot::default(), gen: 0 };
        let r = p.save(q).and_then(|_| Party::open(q, 0));
        match r {
            Ok(p) => net.p.push(p),
            Err(e) => return bad("setup", e),
        }
        models.push(vec![World::new()]);
    }
    for o in ops {
        sched::event(|| format!("call {}", o.s()));
        match o.k.as_str() {
            "pwrite" | "prevoke" | "pdelete" => {
                // the party's application works on its snapshot with a Stronghold instance
                let q = o.n(0);
                let party = &net.p[q as usize];
                let gen = party.gen;
                let r = (|| -> Result<(), String> {
                    party.save(q)?;
                    let mut s = Sess::new();
                    let e = |e: iota_stronghold::ClientError| format!("{e}");
                    let kp = iota_stronghold::KeyProvider::try_from(fkey(q).to_vec()).map_err(|e| format!("{e:?}"))?;
                    s.sh.load_snapshot(&kp, &path(q)).map_err(e)?;
                    let c = o.n(1);
                    let mut cl = None;
                    // all clients are loaded so that the commit saves all of them
                    for k in 0..NC {
                        let x = match s.sh.load_client(cpath(k)) {
                            Ok(x) => x,
                            Err(_) if k == c => s.sh.create_client(cpath(k)).map_err(e)?,
                            Err(_) => continue,
                        };
                        if k == c {
                            cl = Some(x);
                        }
                    }
                    let cl = cl.unwrap();
                    cl.store().insert(b"note".to_vec(), note(q, c), None).map_err(e)?;
                    s.h.insert(c, cl);
                    let k = &o.k[1..];
                    let mut a = o.a[1..].to_vec();
                    a.truncate(4);
                    match s.exec(&op(k, &a)) {
                        Res::Bad(b) => return Err(b),
                        Res::Err(e) if k != "write" => return Err(e),
                        _ => {}
                    }
                    s.sh.commit_with_keyprovider(&path(q), &kp).map_err(e)
                })();
                if let Err(e) = r {
                    return bad("edit", format!("{}: {e}", o.s()));
                }
                match Party::open(q, gen) {
                    Ok(p) => net.p[q as usize] = p,
                    Err(e) => return bad("reopen", e),
                }
                for w in &mut models[q as usize] {
                    let (c, v, k) = (o.n(1), o.n(2), o.n(3));
                    let vs = w.entry(c).or_default();
                    match o.k.as_str() {
                        "pwrite" => {
                            let m = vs.entry(v).or_default();
                            if m.get(&rid(v, k)) != Some(&REVOKED) {
                                m.insert(rid(v, k), o.n(4));
                            }
                        }
                        _ => {
                            if let Some(m) = vs.get_mut(&v) {
                                if let Some(x) = m.get_mut(&rid(v, k)) {
                                    *x = REVOKED;
                                }
                                if o.k == "pdelete" {
                                    m.retain(|_, x| *x != REVOKED);
                                }
                            }
                        }
                    }
                }
            }
            "rekey" => {
                let p = &mut net.p[o.n(0) as usize];
                p.gen += 1;
                if let Err(e) = p.snap.store_secret_key(sk(o.n(0), p.gen), skloc()) {
                    return bad("rekey", e.to_string());
                }
            }
            "reopen" => {
                let q = o.n(0);
                let gen = net.p[q as usize].gen;
                match net.p[q as usize].save(q).and_then(|_| Party::open(q, gen)) {
                    Ok(p) => net.p[q as usize] = p,
                    Err(e) => return bad("reopen", e),
                }
            }
            "export" => {
                let (q, to) = (o.n(0), o.n(1));
                let gen = net.p[to as usize].gen;
                let mut select = HashMap::new();
                let mut carried: Vec<World> = vec![];
                let mut missing = false;
                let have = match world(&net.p[q as usize]) {
                    Ok(w) => w,
                    Err(e) => return bad("unreadable", e),
                };
                let mut wc = World::new();
                let mut chosen: BTreeSet<(i64, i64)> = BTreeSet::new();
                for c in 0..2 {
                    let mut vs = HashMap::new();
                    for v in 0..nv {
                        if o.n(2) >= 0 && o.n(2) >> (c * nv + v) & 1 == 0 {
                            continue;
                        }
                        match have.get(&c).and_then(|c| c.get(&v)) {
                            None if o.n(2) < 0 => continue,
                            None => missing = true,
                            Some(m) => {
                                let rs: Vec<i64> = (0..nr).filter(|r| o.n(3) < 0 || o.n(3) >> r & 1 == 1).collect();
                                vs.insert(iota_stronghold::derive_vault_id(vpath(v)), rs.iter().map(|r| loc(v, *r).resolve().1).collect::<Vec<_>>());
                                let mm: VaultM = m.iter().filter(|(q, x)| **x != REVOKED && rs.iter().any(|r| rid(v, *r) == **q)).map(|(a, b)| (*a, *b)).collect();
                                wc.entry(c).or_default().insert(v, mm);
                                chosen.insert((c, v));
                            }
                        }
                    }
                    if !vs.is_empty() {
                        select.insert(client_id(c), vs);
                    }
                }
                carried.push(wc);
                let _ = missing;
                match net.p[q as usize].snap.export_to_serialized_state(select, pk(to, gen)) {
                    Ok((pk, bytes)) => {
                        for x in have.values().flat_map(|c| c.values()).flat_map(|m| m.values()).collect::<BTreeSet<_>>() {
                            if *x >= 0 {
                                let s = secret(*x);
                                if bytes.windows(s.len()).any(|w| w == &s[..]) {
                                    return bad("plaintext", format!("the exported message contains secret {x} in the clear"));
                                }
                            }
                        }
                        let plain = {
                            let shared = secret_key(to, gen).diffie_hellman(&pk);
                            let e = engine::snapshot::read(&mut bytes.as_slice(), shared.as_bytes(), &[]).map_err(|e| e.to_string());
                            e.and_then(|b| engine::snapshot::decompress(&b).map_err(|e| e.to_string()))
                        };
                        match plain.map(|b| sched::inert(|| too_much(q, o, nv, nr, &have, &chosen, &b))) {
                            Ok(None) => {}
                            Ok(Some(what)) => return bad("exported-too-much", format!("{}: the message also carries {what}", o.s())),
                            Err(e) => return bad("export", format!("{}: the recipient's key does not open the message: {e}", o.s())),
                        }
                        bump("exports");
                        log.push(format!("{} -> message {} of {} bytes", o.s(), net.m.len(), bytes.len()));
                        net.m.push(Msg { to, gen, pk: pk.to_bytes(), bytes, world: carried.pop().unwrap() });
                    }
                    Err(e) => return bad("export", format!("{}: {e}", o.s())),
                }
                // exporting changes nothing
                match world(&net.p[q as usize]) {
                    Ok(w) if tidy(&w) == tidy(&have) => {}
                    Ok(w) => return bad("export-changed", format!("exporting changed {have:?} into {w:?}")),
                    Err(e) => return bad("unreadable", e),
                }
            }
            "lose" => {
                if !net.m.is_empty() {
                    let i = o.n(0) as usize % net.m.len();
                    net.m.remove(i);
                    vfs::v().bump("net:lost");
                }
            }
            "deliver" => {
                if net.m.is_empty() {
                    continue;
                }
                let i = if o.n(0) < 0 { net.m.len() - 1 } else { o.n(0) as usize % net.m.len() };
                let msg = net.m[i].clone();
                if i + 1 < net.m.len() {
                    vfs::v().bump("net:reordered");
                }
                let to = if o.n(1) < 0 { msg.to } else { o.n(1) };
                let mut b = msg.bytes.clone();
                let others: Vec<Vec<u8>> = net.m.iter().map(|m| m.bytes.clone()).collect();
                let before = match stores(&net.p[to as usize]) {
                    Ok(s) => s,
                    Err(e) => return bad("unreadable", e),
                };
                if o.n(2) >= 7 {
                    // the sender itself sends something that is no proper export
                    let me = x25519::SecretKey::from_bytes(sk(to, net.p[to as usize].gen));
                    let shared = me.diffie_hellman(&x25519::PublicKey::from_bytes(msg.pk));
                    let Ok(pt) = engine::snapshot::read(&mut b.as_slice(), shared.as_bytes(), &[]) else { continue };
                    vfs::v().bump("net:malformed");
                    let pt = malform(pt, o.n(2), o.n(3), o.n(4));
                    let mut b = vec![];
                    engine::snapshot::write(&pt, &mut b, shared.as_bytes(), &[]).unwrap();
                    let r = net.p[to as usize].snap.import_from_serialized_state(b, skloc(), x25519::PublicKey::from_bytes(msg.pk), config(o, 6, nv, nr));
                    let w = match world(&net.p[to as usize]) {
                        Ok(w) => w,
                        // what the sender made up may go by any name
                        Err(e) if e.contains("unknown") || e.contains("never written") => return Ok(()),
                        Err(e) => return bad("unreadable", format!("after a malformed message {} = {r:?}: {e}", o.s())),
                    };
                    log.push(format!("malformed message {i} to party {to}: {r:?}"));
                    let st = &mut models[to as usize];
                    let same = st.iter().any(|s| tidy(s) == tidy(&w));
                    if r.is_err() && !same && msg.world.len() < 2 {
                        return bad("refused-changed", format!("a refused message changed the recipient: {:?} became {:?}", tidy(&st[0]), tidy(&w)));
                    }
                    if !same {
                        *st = vec![w];
                    }
                    continue;
                }
                let altered = damage(&mut b, o.n(2), o.n(3), o.n(4), &others);
                if altered {
                    vfs::v().bump(["", "net:truncated", "net:bitflip", "net:extended", "net:zeroed", "net:spliced", "net:garbage", "", ""][o.n(2) as usize]);
                }
                let kpk = if o.n(5) == 1 { x25519::SecretKey::from_bytes(sk(77, 0)).public_key() } else { x25519::PublicKey::from_bytes(msg.pk) };
                let opens = !altered && to == msg.to && msg.gen == net.p[to as usize].gen && o.n(5) == 0;
                if to != msg.to {
                    vfs::v().bump("net:misdelivered");
                }
                let sent = b.len();
                let r = net.p[to as usize].snap.import_from_serialized_state(b, skloc(), kpk, config(o, 6, nv, nr));
                let w = match world(&net.p[to as usize]) {
                    Ok(w) => w,
                    Err(e) => return bad("unreadable", format!("after {} = {r:?}: {e}", o.s())),
                };
                log.push(format!("message {i} ({sent} bytes, altered {altered}) to party {to}: {r:?}"));
                let may: BTreeSet<i64> = match opens {
                    true => msg.world.keys().filter(|c| o.n(7) == 0 || o.n(7) >> **c & 1 == 1).map(|c| if o.n(8 + *c as usize) < 0 { *c } else { o.n(8 + *c as usize) }).collect(),
                    false => BTreeSet::new(),
                };
                match stores(&net.p[to as usize]).map(|s| other_changes(&before, &s, &may)) {
                    Ok(None) => {}
                    Ok(Some(m)) => return bad("changed-else", format!("{}: {m}", o.s())),
                    Err(e) => return bad("unreadable", e),
                }
                let st = &mut models[to as usize];
                if opens {
                    if let Err(e) = r {
                        return bad("refused", format!("an intact message was refused: {e}; carried {:?}, recipient {:?}", msg.world, st[0]));
                    }
                    bump("delivered_ok");
                    let mut n: Vec<World> = vec![];
                    for s in st.iter() {
                        for m in merged(o, 6, nv, nr, &msg.world, s) {
                            if !n.contains(&m) {
                                n.push(m);
                            }
                        }
                    }
                    let k: Vec<World> = n.iter().filter(|m| tidy(m) == tidy(&w)).cloned().collect();
                    if k.is_empty() {
                        return bad("contents", format!("{}: carried {:?}; recipient held {:?}, now {:?}; expected {:?}", o.s(), msg.world, tidy(&st[0]), tidy(&w), tidy(&n[0])));
                    }
                    *st = k;
                } else {
                    bump("refused");
                    if r.is_ok() {
                        return bad("accepted", format!("a message that was altered ({altered}), for party {} generation {}, was accepted by party {to}: {}", msg.to, msg.gen, o.s()));
                    }
                    if !st.iter().any(|s| tidy(s) == tidy(&w)) {
                        return bad("refused-changed", format!("a refused message changed the recipient: {:?} became {:?}", tidy(&st[0]), tidy(&w)));
                    }
                }
            }
            _ => {}
        }
    }
    // everything survives saving and reopening
    for q in 0..np {
        let gen = net.p[q as usize].gen;
        let r = net.p[q as usize].save(q).and_then(|_| Party::open(q, gen)).and_then(|p| world(&p));
        match r {
            Ok(w) if models[q as usize].iter().any(|m| tidy(m) == tidy(&w)) => {}
            Ok(w) => return bad("contents", format!("party {q} holds {:?}; expected {:?}", tidy(&w), tidy(&models[q as usize][0]))),
            Err(e) => return bad("unreadable", e),
        }
    }
    Ok(())
}
