//! C22: files and messages that an earlier build wrote (`golden.json`, made by the code as it was
//! before any change, with `simcheck golden`).
use crate::client::*;
use crate::fw::*;
use crate::persist::*;
use crate::sync::client_id;
use crate::sync::{dump_snapshot, World};
use crate::transfer::{pk, secret_key};
use crate::w::*;
use iota_stronghold::sync::{MergePolicy, SyncSnapshotsConfig};
use iota_stronghold::{Location, Snapshot, SnapshotPath};
use serde::{Deserialize, Serialize};
use simrt::{sched, vfs, Rng};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Serialize, Deserialize, Clone)]
struct Golden {
    style: i64,
    dims: [i64; 4],
    key: i64,
    /// What was done before the file was written, with the results.
    done: Vec<(Op, Res)>,
    file: String,
    /// A message for party 1: the sender's public key, the bytes, what a recipient has that starts with nothing.
    msg: Option<(String, String, World)>,
}
fn goldens() -> &'static Vec<Golden> {
    static G: OnceLock<Vec<Golden>> = OnceLock::new();
    G.get_or_init(|| serde_json::from_str(include_str!("../golden.json")).expect("golden.json"))
}
pub fn warm() {
    goldens();
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// A client apart from the others, with entries that live for 150 years, for a second and for ever.
const APART: i64 = 5;
fn apart() -> Vec<Op> {
    vec![
        op("create", &[APART]),
        op("sput", &[APART, 40, 11, 4_730_000_000_000]),
        op("sput", &[APART, 41, 13, 1000]),
        op("sput", &[APART, 42, 14]),
        op("write", &[APART, 1, 0, 17]),
        op("write", &[APART, 1, 51, 19]),
    ]
}
fn apart_holds() -> Vec<(Op, Res)> {
    vec![
        (op("load", &[APART]), Res::Ok),
        (op("sget", &[APART, 42]), Res::Val(14)),
        (op("sget", &[APART, 40]), Res::Val(11)),
        (op("sget", &[APART, 41]), Res::None),
        (op("read", &[APART, 1, 0]), Res::Val(17)),
        (op("read", &[APART, 1, 51]), Res::Val(19)),
        (op("exists", &[APART, 1, 1]), Res::Bool(false)),
    ]
}
fn here() -> Location {
    Location::generic("exchange", "local-sk")
}
/// What a recipient that starts with nothing has after importing the message.
fn import(bytes: Vec<u8>, from: [u8; 32]) -> Result<World, String> {
    let mut snap = Snapshot::default();
    let mut sk = [0u8; 32];
    sk.copy_from_slice(&secret_key(1, 0).to_bytes());
    snap.store_secret_key(sk, here()).map_err(|e| format!("{e}"))?;
    snap.import_from_serialized_state(bytes, here(), crypto::keys::x25519::PublicKey::from_bytes(from), SyncSnapshotsConfig::new(MergePolicy::Replace))
        .map_err(|e| format!("{e}"))?;
    dump_snapshot(&snap, 3).map(|x| x.0)
}
fn export(key: i64) -> Result<(String, String, World), String> {
    let mut k = [0u8; 32];
    k.copy_from_slice(&key_bytes(key));
    let snap = Snapshot::read_from_snapshot(&SnapshotPath::from_path(snap_path(0)), k, None).map_err(|e| format!("{e}"))?;
    let mut select = HashMap::new();
    for c in (0..3).filter(|c| snap.has_data(client_id(*c))) {
        let (_, db, _) = snap.get_state(client_id(c)).map_err(|e| format!("{e}"))?;
        let mut vs = HashMap::new();
        for v in db.list_vaults() {
            vs.insert(v, db.list_records(&v).into_iter().filter(|r| db.contains_record(v, *r)).collect::<Vec<_>>());
        }
        select.insert(client_id(c), vs);
    }
    let (from, bytes) = snap.export_to_serialized_state(select, pk(1, 0)).map_err(|e| format!("{e}"))?;
    let mut f = [0u8; 32];
    f.copy_from_slice(from.as_slice());
    Ok((hex(&f), hex(&bytes), import(bytes, f)?))
}

/// Writes what later builds have to read.
pub struct Make;
impl Scenario for Make {
    fn property(&self) -> &'static str {
        "golden"
    }
    fn name(&self) -> &'static str {
        "golden"
    }
    fn quick_runs(&self) -> u64 {
        0
    }
    fn real(&self) -> &'static str {
        ""
    }
    fn rule(&self) -> &'static str {
        ""
    }
    fn gen(&self, r: &mut Rng, k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("golden", "golden", r.next() >> 1);
        p.cfg.insert("style".into(), k as i64 % 16);
        let d = Dims::gen(r, &mut p);
        let mut x = 0;
        for c in 0..d.nc {
            p.setup.push(op("create", &[c]));
        }
        for _ in 0..4 + r.below(14) {
            p.setup.push(if r.chance(3, 4) { d.write_op(r, &mut x) } else { d.data_op(r, &mut x) });
        }
        let key = match k % 8 {
            3 => 100 + k as i64,
            5 => 200 + k as i64,
            6 => 300 + k as i64,
            _ => k as i64,
        };
        p.cfg.insert("key".into(), key);
        // (the history has to be one that the model explains)
        p.setup.extend(d.observe());
        p.setup.push(op("commit", &[0, key]));
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let d = Dims::of(plan);
        let hist: Hist<Res> = Hist::new();
        let (h, setup, key) = (hist.clone(), plan.setup.clone(), plan.c("key"));
        let msg = cx.solo("make", move || {
            let mut s = Sess::new();
            for o in apart() {
                if let r @ (Res::Err(_) | Res::Bad(_)) = s.exec(&o) {
                    panic!("{} = {r:?}", o.s());
                }
            }
            for (j, o) in setup.iter().enumerate() {
                h.run(0, j, o, || s.exec(o));
            }
            (key < 100).then(|| export(key).unwrap())
        });
        let Some(msg) = msg else { return };
        // (the original code had defects)
        verify(cx, &hist, false, "golden");
        if !cx.ok() {
            return;
        }
        let g = Golden {
            style: plan.c("style"),
            dims: [d.nc, d.nv, d.nr, d.nk],
            key,
            done: hist.all().into_iter().map(|e| (e.op, e.res.unwrap())).collect(),
            file: hex(&vfs::v().peek(&snap_file(0)).unwrap()),
            msg,
        };
        cx.sample = vec![serde_json::to_string(&g).unwrap()];
    }
}
pub fn make(n: u64) -> String {
    let pool = Pool::new();
    let l: Vec<String> = (0..n)
        .map(|k| {
            (0..100)
                .find_map(|t| {
                    let p = Make.gen(&mut Rng::new(0x601d + k + 1000 * t), k, false);
                    let o = pool.one(&Make, &p, false);
                    (o.sig.is_none() && o.sample.len() == 1).then(|| o.sample[0].clone())
                })
                .expect("a sound history")
        })
        .collect();
    format!("[\n{}\n]\n", l.join(",\n"))
}

pub struct Earlier;
impl Scenario for Earlier {
    fn property(&self) -> &'static str {
        "C22"
    }
    fn name(&self) -> &'static str {
        "earlier-files"
    }
    fn quick_runs(&self) -> u64 {
        5000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime with their snapshot code as compiled from /repo; the files and messages come from the original code; the disk is simulated"
    }
    fn rule(&self) -> &'static str {
        "a file (one of 48: names of four kinds, odd sizes, keys given directly, as passphrases or hashed ones) and a message that the original code wrote; a new process loads the file at once or client by client, must find everything, goes on with it (1-2 users, failing I/O, kill or power failure), and another process loads what is there then; results are checked against the model that also explains what the original code did"
    }
    fn gen(&self, r: &mut Rng, k: u64, _t: bool) -> Plan {
        let mut p = Plan::new("C22", "earlier-files", r.next() >> 1);
        let i = (k % goldens().len() as u64) as i64;
        let g = &goldens()[i as usize];
        p.cfg.insert("golden".into(), i);
        p.cfg.insert("style".into(), g.style);
        for (n, v) in ["nc", "nv", "nr", "nk"].iter().zip(g.dims) {
            p.cfg.insert(n.to_string(), v);
        }
        p.cfg.insert("later".into(), *r.pick(&[10, 10, 100_000, 3_000_000_000]));
        p.cfg.insert("each".into(), r.chance(1, 3) as i64);
        let d = Dims::of(&p);
        let mut x = 60;
        let nt = 1 + r.below(2);
        for t in 0..nt {
            let mut v = vec![];
            for _ in 0..1 + r.below(4) {
                v.push(d.data_op(r, &mut x));
                if t == 0 && r.chance(1, 2) {
                    v.push(op("commit", &[0, g.key]));
                }
            }
            p.threads.push(v);
        }
        if r.chance(1, 3) {
            p.crash = Some(Crash { at_io: r.below(25) as i64, at_step: 0, power: r.chance(1, 2), seed: r.next() >> 1 });
        }
        if r.chance(1, 5) {
            p.faults.push(gen_disk_fault(r));
        }
        p.sched = if nt == 1 { SchedSpec::Seq } else { gen_sched(r, 1500) };
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let d = Dims::of(plan);
        let g = &goldens()[plan.c("golden") as usize % goldens().len()];
        let hist: Hist<Res> = Hist::new();
        let _ = (|| -> Option<()> {
            sched::inert(|| {
                vfs::v().mkdir_all("/simfs/data");
                vfs::v().put(&snap_file(0), &unhex(&g.file));
                vfs::v().sync_everything();
                sched::s().wall_off += plan.c("later") as i128 * 1_000_000_000;
            });
            let h = hist.clone();
            cx.solo("earlier", move || {
                for (j, (o, r)) in g.done.iter().enumerate() {
                    h.run(0, j, o, || r.clone());
                }
                h.run(0, 500, &op("restart", &[]), || Res::Ok);
            })?;
            let bad = cx.solo("apart", move || -> Option<String> {
                let mut s = Sess::new();
                let all = [(op("loads", &[0, g.key]), Res::Ok)].into_iter().chain(apart_holds());
                for (o, want) in all {
                    let got = s.exec(&o);
                    if got != want {
                        return Some(format!("{} = {got:?} instead of {want:?}", o.s()));
                    }
                }
                if let Some((from, bytes, want)) = &g.msg {
                    let mut f = [0u8; 32];
                    f.copy_from_slice(&unhex(from));
                    match import(unhex(bytes), f) {
                        Ok(w) if w == *want => {}
                        r => return Some(format!("importing the message gives {r:?} instead of {want:?}")),
                    }
                }
                None
            })?;
            if let Some(b) = bad {
                cx.violate("earlier-client", b);
                return None;
            }
            let s = cx.solo("new", Sess::new)?;
            let mut ops = vec![];
            if plan.c("each") == 1 {
                ops.extend((0..d.nc).map(|c| op("loadf", &[c, 0, g.key])));
                ops.extend(d.observe());
            } else {
                ops = d.reload(0, g.key);
            }
            let s = seq(cx, &hist, s, ops, 0)?;
            cx.count("nontrivial");
            let crashed = storm(cx, &hist, &s)?;
            cx.count(if crashed { "crashed_midway" } else { "not_crashed" });
            std::mem::forget(s);
            let s = restart(cx, &hist, plan.crash.is_some())?;
            let s = seq(cx, &hist, s, d.reload(0, g.key), 0)?;
            std::mem::forget(s);
            Some(())
        })();
        verify(cx, &hist, true, "earlier-files");
    }
}
