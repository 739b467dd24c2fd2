//! C20: removal; C03: damaged and foreign snapshots; C04: what reaches the disk.
use crate::client::*;
use crate::fw::*;
use crate::persist::*;
use crate::w::*;
use iota_stronghold::LoadFromPath;
use simrt::{sched, vfs, Rng};

/// The decrypted and decompressed payload of a snapshot file, read by the harness.
pub fn payload(path: &str, key: &[u8]) -> Option<Vec<u8>> {
    sched::inert(|| {
        let b = vfs::v().peek(path)?;
        if b.len() < 7 {
            return None;
        }
        let k: [u8; 32] = key.try_into().ok()?;
        let pt = engine::snapshot::read(&mut &b[7..], &k, &[]).ok()?;
        engine::snapshot::decompress(&pt).ok()
    })
}
/// The 24 bytes of an identifier.
pub fn id_bytes<T: serde::Serialize>(t: &T) -> Vec<u8> {
    fn flat(v: &serde_json::Value, o: &mut Vec<u8>) {
        match v {
            serde_json::Value::Number(n) => o.push(n.as_u64().unwrap_or(0) as u8),
            serde_json::Value::Array(a) => a.iter().for_each(|x| flat(x, o)),
            serde_json::Value::Object(m) => m.values().for_each(|x| flat(x, o)),
            _ => {}
        }
    }
    let mut o = vec![];
    flat(&serde_json::to_value(t).unwrap(), &mut o);
    o
}
pub fn client_id(c: i64) -> Vec<u8> {
    id_bytes(&engine::vault::ClientId::load_from_path(&cpath(c), &cpath(c)))
}
pub fn record_id(v: i64, r: i64) -> Vec<u8> {
    id_bytes(&loc(v, r).resolve().1)
}

pub struct RemovalS;
impl Scenario for RemovalS {
    fn property(&self) -> &'static str {
        "C20"
    }
    fn name(&self) -> &'static str {
        "removal"
    }
    fn quick_runs(&self) -> u64 {
        10000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo; simulated disk"
    }
    fn rule(&self) -> &'static str {
        "2-3 users; one deletes secrets and store entries, purges clients or clears the instance while others read, write, commit, save, load and reload; afterwards everything is observed, revoked records are cleaned up, a commit is made, its decrypted payload must not contain the record ids, store values or client ids that are gone, and a new process loads it; all results are checked against the model"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C20", "removal", r.next() >> 1);
        let mut d = Dims::gen(r, &mut p);
        d.nv = d.nv.min(2);
        // many records in few vaults, or few in more
        let many = r.chance(1, 4);
        if many {
            d.nr = 3 + r.below(3) as i64;
            d.nv = 1;
            d.nc = d.nc.min(2);
            p.cfg.insert("nv".into(), d.nv);
            p.cfg.insert("nc".into(), d.nc);
        } else {
            d.nr = d.nr.min(2);
        }
        p.cfg.insert("nr".into(), d.nr);
        let mut x = 0;
        for c in 0..d.nc {
            p.setup.push(op("create", &[c]));
            for q in 0..if many { d.nr } else { 1 } {
                x += 1;
                p.setup.push(op("write", &[c, 0, q, x]));
            }
            if r.chance(1, 2) {
                x += 1;
                p.setup.push(op("sput", &[c, 0, x]));
            }
        }
        for _ in 0..r.below(4) {
            p.setup.push(d.write_op(r, &mut x));
        }
        // what the instance keeps without any client
        let ss = r.chance(1, 2);
        if ss {
            x += 1;
            p.setup.push(op("ssput", &[r.below(2) as i64, x % NVAL]));
        }
        if r.chance(3, 4) {
            p.setup.push(op("commit", &[0, 7]));
        }
        let removal = |r: &mut Rng| {
            let c = r.below(d.nc as u64) as i64;
            let v = r.below(d.nv as u64) as i64;
            let q = r.below(d.nr as u64) as i64;
            if many && r.chance(1, 2) {
                let keep = r.below(2 * d.nr as u64) as i64;
                let mut o: Vec<Op> = (0..d.nr).filter(|q| *q != keep).map(|q| op("revoke", &[c, v, q])).collect();
                o.push(op("cleanup", &[c, v]));
                return o;
            }
            match r.weighted(&[20, 12, 8, 12, 6, 14, 10]) {
                0 => vec![op("delete", &[c, v, q])],
                1 => vec![op("revoke", &[c, v, q]), op("cleanup", &[c, v])],
                2 => vec![op("revoke", &[c, v, q])],
                3 => vec![op("sdel", &[c, r.below(d.nk as u64) as i64])],
                4 => vec![op("sclear", &[c])],
                5 => vec![op("purge", &[c])],
                _ => vec![op("clear", &[])],
            }
        };
        let w = [2, 8, 4, 3, 3, 3, 0, 10, 0, 10, 20];
        let nt = 1 + r.below(if many { 2 } else { 3 });
        for t in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(if many { 1 } else { 3 }) {
                if t == 0 {
                    v.extend(removal(r));
                }
                if t > 0 && ss && r.chance(1, 5) {
                    x += 1;
                    let k = r.below(2) as i64;
                    v.push(if r.chance(1, 2) { op("ssput", &[k, x % NVAL]) } else { op("ssget", &[k]) });
                } else if t > 0 || r.chance(1, 3) {
                    v.push(registry_op(r, &d, &mut x, &w));
                }
            }
            p.threads.push(v);
        }
        p.mem_points = r.chance(1, 6);
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 3000) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            // observe through the old handles, then through handles to what is loaded
            let mut ops = d.observe();
            ops.push(op("ssget", &[0]));
            ops.push(op("ssget", &[1]));
            for c in 0..d.nc {
                ops.push(op("get", &[c]));
                ops.push(op("load", &[c]));
                for v in 0..d.nv {
                    ops.push(op("cleanup", &[c, v]));
                }
            }
            let s = seq(cx, &hist, s, ops, 0)?;
            let mark = hist.all().len();
            let mut ops = d.observe();
            ops.push(op("commit", &[0, 7]));
            let s = seq(cx, &hist, s, ops, 0)?;
            std::mem::forget(s);
            let all = hist.all();
            let tail = &all[mark..];
            if tail.last().map(|e| e.res == Some(Res::Ok)).unwrap_or(false) {
                match payload(&snap_path(0), &key_bytes(7)) {
                    None => cx.violate("removal:unreadable", "the committed file cannot be opened".into()),
                    Some(b) => {
                        cx.count("payloads_inspected");
                        let gone = |k: &str| {
                            // no client is loaded or saved under this name
                            all[..mark].iter().rev().take(d.nc as usize * (2 + d.nv as usize)).find(|e| e.op.k == "load" && e.op.s() == k).map(|e| e.res == Some(Res::Err("NotPresent".into()))).unwrap_or(false)
                        };
                        let mut alive: Vec<i64> = vec![];
                        let mut present: Vec<Vec<u8>> = vec![];
                        for c in 0..d.nc {
                            if gone(&op("load", &[c]).s()) {
                                cx.count("clients_gone");
                                if vfs::find(&b, &client_id(c)) {
                                    cx.violate("removal:client-in-file", format!("client {c} was removed but is part of the snapshot committed afterwards"));
                                }
                            } else {
                                for e in tail.iter().filter(|e| e.op.n(0) == c) {
                                    match (e.op.k.as_str(), &e.res) {
                                        ("sget", Some(Res::Val(x))) => alive.push(*x),
                                        ("exists", Some(Res::Bool(true))) => present.push(record_id(e.op.n(1), e.op.n(2))),
                                        _ => {}
                                    }
                                }
                            }
                        }
                        for v in 0..d.nv {
                            for q in 0..d.nr {
                                let id = record_id(v, q);
                                if !present.contains(&id) && vfs::find(&b, &id) {
                                    cx.violate("removal:record-in-file", format!("record {v}/{q} exists in no client but is part of the snapshot"));
                                }
                            }
                        }
                        for x in 0..NVAL {
                            if !alive.contains(&x) && vfs::find(&b, &sval(x)) {
                                cx.violate("removal:value-in-file", format!("store value {x} is gone but part of the snapshot"));
                            }
                        }
                    }
                }
            }
            let s = restart(cx, &hist, false)?;
            let s = seq(cx, &hist, s, d.reload(0, 7), 0)?;
            std::mem::forget(s);
            Some(())
        })();
        verify(cx, &hist, false, "removal");
    }
}

/// Damages the snapshot file of path `p`; the intact content is kept aside.
pub fn spoil(p: i64, kind: i64, off: i64, seed: i64) {
    sched::inert(|| {
        let path = snap_path(p);
        let v = vfs::v();
        let good = match v.peek(&path) {
            Some(b) => b,
            None => return,
        };
        let bak = format!("/keep/{p}");
        v.mkdir_all("/keep");
        // always damage the intact content: twice damaged may be intact again
        let good = match v.peek(&bak) {
            Some(b) => b,
            None => {
                v.put(&bak, &good);
                good
            }
        };
        let mut b = good.clone();
        let mut r = Rng::new(seed as u64);
        let n = b.len().max(1);
        // off: 0..1000 scales with the file, above: distance from the start
        let at = if off < 1000 { n * off as usize / 1000 } else { (off as usize - 1000) % n };
        match kind {
            0 => b.truncate(at),
            1 => b[at] ^= 1 << (seed & 7),
            2 => {
                let mut e = vec![0u8; 1 + r.below(64) as usize];
                r.fill(&mut e);
                b.extend(e);
            }
            3 => {
                b = vec![0u8; at];
                r.fill(&mut b);
            }
            4 => {
                let e = (at + 64).min(b.len());
                b[at..e].fill(0);
            }
            5 => {
                // header of a snapshot, then noise
                let k = 7.min(b.len());
                r.fill(&mut b[k..]);
            }
            6 => b.clear(),
            7 => {
                if b.len() > 6 {
                    b[5 + (seed & 1) as usize] = b[5 + (seed & 1) as usize].wrapping_add(1 + (seed as u8 >> 1) % 255);
                }
            }
            8 => {
                // a mixture of two snapshots
                if let Some(o) = v.peek("/keep/older") {
                    let k = at.min(o.len());
                    b[..k].copy_from_slice(&o[..k]);
                    if b.len() < o.len() {
                        b.extend_from_slice(&o[b.len()..]);
                    }
                    if b == o {
                        b[at.min(n - 1)] ^= 4;
                    }
                }
            }
            9 => {
                let c = b.clone();
                b.extend(c);
            }
            10 => {
                // bytes removed from the middle
                let e = (at + 1 + (seed as usize & 31)).min(b.len());
                b.drain(at..e);
            }
            _ => {
                // two blocks exchanged
                let h = n / 2;
                b.rotate_left(h);
            }
        }
        if b == good {
            let l = b.len();
            if l == 0 {
                b.push(1);
            } else {
                b[at.min(l - 1)] ^= 0x10;
            }
        }
        v.put(&path, &b);
        v.bump(&format!("damage:{}", ["truncate", "bitflip", "extend", "noise", "zeroblock", "noise-after-header", "empty", "version", "mixture", "doubled", "hole", "rotated"][kind.clamp(0, 11) as usize]));
    })
}
pub fn unspoil(p: i64) {
    sched::inert(|| {
        let v = vfs::v();
        if let Some(b) = v.peek(&format!("/keep/{p}")) {
            v.put(&snap_path(p), &b);
        }
    })
}
pub fn keep_older(p: i64) {
    sched::inert(|| {
        let v = vfs::v();
        if let Some(b) = v.peek(&snap_path(p)) {
            v.mkdir_all("/keep");
            v.put("/keep/older", &b);
        }
    })
}

pub struct DamageS;
impl Scenario for DamageS {
    fn property(&self) -> &'static str {
        "C03"
    }
    fn name(&self) -> &'static str {
        "damaged"
    }
    fn quick_runs(&self) -> u64 {
        12000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo, with their snapshot reader; simulated disk with damaged contents and failing, short and corrupting reads"
    }
    fn rule(&self) -> &'static str {
        "a snapshot is damaged (truncated, bits flipped, extended, blocks zeroed, moved, removed or replaced, mixed with an older version) or replaced by one of another key, or the reads fail, are short or return other bytes; loads from it, also with wrong keys and by several users, must fail and leave loaded clients and the snapshot in memory alone; then the intact file must load what was saved"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C03", "damaged", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        d.setup(r, &mut p, &mut x, 6);
        if r.chance(1, 3) {
            p.setup.push(op("commit", &[0, 7]));
            p.setup.push(op("older", &[0]));
            for _ in 0..1 + r.below(2) {
                p.setup.push(d.write_op(r, &mut x));
            }
        }
        p.setup.push(op("commit", &[0, 7]));
        if r.chance(1, 3) {
            p.setup.push(op("commit", &[1, 8]));
        }
        for c in 0..d.nc {
            match r.below(3) {
                0 => p.setup.push(op("unload", &[c])),
                1 => {
                    p.setup.push(d.write_op(r, &mut x));
                    p.setup.push(op("wclient", &[c]));
                    p.setup.push(op("unload", &[c]));
                }
                _ => p.setup.push(d.write_op(r, &mut x)),
            }
        }
        let mode = r.below(6);
        let mut load = |r: &mut Rng| {
            let key = if mode == 3 || r.chance(1, 8) { *r.pick(&[8, 9, 10, 11]) } else { 7 };
            let c = r.below(d.nc as u64) as i64;
            if r.chance(1, 3) {
                op("loadf", &[c, 0, key])
            } else {
                op("loads", &[0, key])
            }
        };
        let nt = *r.pick(&[1, 1, 1, 2, 3]);
        let mut first = vec![];
        for _ in 0..1 + r.below(2) {
            if mode < 3 {
                first.push(op("spoil", &[0, r.below(12) as i64, if r.chance(1, 3) { 1000 + r.below(80) as i64 } else { r.below(1000) as i64 }, r.below(1 << 30) as i64]));
            }
            first.push(load(r));
            if r.chance(1, 3) {
                first.push(load(r));
            }
            if r.chance(1, 3) {
                first.push(d.data_op(r, &mut x));
            }
            if r.chance(1, 4) {
                first.push(op("load", &[r.below(d.nc as u64) as i64]));
            }
        }
        p.threads.push(first);
        for _ in 1..nt {
            p.threads.push((0..1 + r.below(3)).map(|_| if r.chance(1, 3) { load(r) } else { d.data_op(r, &mut x) }).collect());
        }
        if mode >= 4 {
            for _ in 0..1 + r.below(2) {
                let (cls, errs): (&str, &[&str]) = *r.pick(&[
                    ("read", &["EIO", "corrupt", "corrupt", "short", "EINTR"][..]),
                    ("read", &["short", "EINTR"][..]),
                    ("open", &["EIO", "EMFILE", "EACCES"][..]),
                    ("stat", &["EIO", "EACCES"][..]),
                ]);
                p.faults.push(FaultSpec { cls: cls.into(), nth: r.below(6), err: r.pick(errs).to_string(), count: *r.pick(&[1, 1, 2, 4]) });
            }
        }
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 1500) };
        p
    }
    fn directed(&self) -> Vec<Plan> {
        let mut v = vec![];
        for bit in [0, 1, 2, 254, 255, 3, 100, 200, 253] {
            let mut p = Plan::new("C03", "damaged", 1);
            p.cfg.insert("clamped".into(), bit + 1);
            p.cfg.insert("nc".into(), 1);
            v.push(p);
        }
        v
    }
    fn run(&self, cx: &mut Cx) {
        if cx.plan.c("clamped") > 0 {
            return self.other_key(cx, cx.plan.c("clamped") as usize - 1);
        }
        let d = Dims::of(cx.plan);
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        // a load that meets a failing read may fail; one that meets short or interrupted reads may not
        let lax = plan.faults.iter().any(|f| f.err != "short" && !(f.err == "EINTR" && f.cls == "read"));
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            storm(cx, &hist, &s)?;
            let mut ops = d.observe();
            for c in 0..d.nc {
                ops.push(op("get", &[c]));
                ops.push(op("load", &[c]));
            }
            ops.extend(d.observe());
            ops.push(op("unspoil", &[0]));
            let s = seq(cx, &hist, s, ops, 0)?;
            // the damaged file was never written to, and the intact one loads
            if plan.seed % 2 == 0 {
                let mut ops = vec![op("loads", &[0, 7])];
                for c in 0..d.nc {
                    ops.push(op("unload", &[c]));
                    ops.push(op("load", &[c]));
                }
                ops.extend(d.observe());
                let s = seq(cx, &hist, s, ops, 0)?;
                cx.solo("drop", move || drop(s));
            } else {
                std::mem::forget(s);
                let s = restart(cx, &hist, false)?;
                let s = seq(cx, &hist, s, d.reload(0, 7), 0)?;
                std::mem::forget(s);
            }
            if !cx.plan.faults.is_empty() || cx.plan.threads.iter().flatten().any(|o| o.k == "spoil" || o.n(2) > 7 || o.n(1) > 7) {
                cx.count("nontrivial");
            }
            Some(())
        })();
        verify_with(cx, &hist, SModel { lax_fail: false, lax_load: lax }, "damaged");
    }
}
impl DamageS {
    /// A key that differs in one bit.
    fn other_key(&self, cx: &mut Cx, bit: usize) {
        let r = cx.solo("clamped", move || {
            use iota_stronghold::{KeyProvider, SnapshotPath, Stronghold};
            let p = SnapshotPath::from_path(snap_path(0));
            let a = Stronghold::default();
            let c = a.create_client(cpath(0)).ok()?;
            c.vault(vpath(0)).write_secret(loc(0, 0), secret(1)).ok()?;
            a.commit_with_keyprovider(&p, &keyprov(7)).ok()?;
            let mut k = key_bytes(7);
            k[bit / 8] ^= 1 << (bit % 8);
            Some(Stronghold::default().load_snapshot(&KeyProvider::try_from(k).ok()?, &p).is_ok())
        });
        match r {
            Some(Some(true)) => cx.violate(if bit < 3 || bit > 253 { "wrong-key-accepted:clamped-bits" } else { "wrong-key-accepted" }, format!("a key that differs from the right one in bit {bit} opens the snapshot")),
            Some(Some(false)) => {}
            Some(None) => cx.violate("damaged:setup", "the directed run could not be set up".into()),
            None => {}
        }
    }
}

pub struct PlainS;
impl Scenario for PlainS {
    fn property(&self) -> &'static str {
        "C04"
    }
    fn name(&self) -> &'static str {
        "plaintext"
    }
    fn quick_runs(&self) -> u64 {
        12000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime (snapshot writer, file-backed memory) as compiled from /repo; simulated disk that inspects every write"
    }
    fn rule(&self) -> &'static str {
        "1-3 users write secrets and store entries, commit with given or stored keys, and keep keys in memory split over files, while disk calls fail and the process may die at any I/O call; every byte written and every file name is searched for the secrets, store values, keys and passphrases used"
    }
    fn gen(&self, r: &mut Rng, _k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C04", "plaintext", r.next() >> 1);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        d.setup(r, &mut p, &mut x, 4);
        p.setup.push(op("setkey", &[7]));
        let nt = 1 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            for _ in 0..2 + r.below(4) {
                v.push(match r.below(12) {
                    0 | 1 => op("commit", &[*r.pick(&[0, 0, 1, 3]), 7]),
                    2 | 3 => op("commitk", &[0]),
                    4 => op("commitp", &[0, r.below(4) as i64]),
                    5 | 6 => op("ncfile", &[r.below(3) as i64, 7 + r.below(3) as i64, r.below(3) as i64]),
                    7 => op("loads", &[0, 7]),
                    8 => op("fmem", &[1 + r.below(20) as i64, r.below(2) as i64]),
                    9 => d.data_op(r, &mut x),
                    _ => d.write_op(r, &mut x),
                });
            }
            p.threads.push(v);
        }
        if r.chance(1, 3) {
            for _ in 0..1 + r.below(2) {
                p.faults.push(gen_disk_fault(r));
            }
        }
        if r.chance(1, 3) {
            p.crash = Some(Crash { at_io: r.below(60) as i64, at_step: 0, power: r.chance(1, 2), seed: r.next() >> 1 });
        }
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 2000) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let hist: Hist<Res> = Hist::new();
        let plan = cx.plan;
        let mut nd: Vec<(String, Vec<u8>)> = vec![];
        for x in 0..NVAL {
            let s = secret(x);
            nd.push((format!("secret {x}"), s[..16].to_vec()));
            if s.len() > 40 {
                nd.push((format!("secret {x}"), s[s.len() - 16..].to_vec()));
            }
        }
        nd.push(("a store value".into(), b"store-value-".to_vec()));
        for k in 7..11 {
            nd.push((format!("key {k}"), key_bytes(k)[..12].to_vec()));
            nd.push((format!("key {k}"), key_bytes(k)[20..].to_vec()));
        }
        for i in 0..4 {
            nd.push((format!("passphrase {i}"), passphrase(i).into_bytes()[..10].to_vec()));
        }
        let mut more: Vec<(String, Vec<u8>)> = vec![];
        for (n, b) in nd.iter().filter(|(n, _)| !n.starts_with("a store")) {
            // whatever starts or ends with the same bytes
            let lower = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
            more.push((format!("{n} in hex"), lower(&b[..6]).into_bytes()));
            more.push((format!("{n} in hex"), lower(&b[b.len() - 6..]).into_bytes()));
            more.push((format!("{n} in upper-case hex"), lower(&b[..6]).to_uppercase().into_bytes()));
            for (k, set) in ["+/", "-_"].iter().enumerate() {
                let t = base64(&b[..9], set);
                if k == 0 || !t.ends_with(&more.last().unwrap().1) {
                    more.push((format!("{n} in base64"), t));
                }
            }
        }
        nd.append(&mut more);
        vfs::v().needles = nd;
        let _ = (|| -> Option<()> {
            let s = cx.solo("new", Sess::new)?;
            let s = seq(cx, &hist, s, plan.setup.clone(), 0)?;
            let crashed = storm(cx, &hist, &s)?;
            if crashed {
                cx.count("crashed_midway");
                std::mem::forget(s);
                cx.crash_disk();
            } else {
                cx.solo("drop", move || drop(s));
            }
            Some(())
        })();
        cx.sample = hist.lines();
        if let Some(l) = vfs::v().leaks.first() {
            let l = l.clone();
            cx.violate("plaintext-on-disk", l);
        }
        let n = vfs::v().io_index;
        cx.add("io_calls", n);
    }
}
fn base64(b: &[u8], last: &str) -> Vec<u8> {
    let set: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(last.bytes()).collect();
    b.chunks_exact(3)
        .flat_map(|c| {
            let n = (c[0] as usize) << 16 | (c[1] as usize) << 8 | c[2] as usize;
            [n >> 18, n >> 12 & 63, n >> 6 & 63, n & 63].map(|i| set[i])
        })
        .collect()
}
pub fn passphrase(i: i64) -> String {
    format!("correct horse {i} battery staple of user {i}")
}
