//! C21: everything that must be random. The same history is lived twice, by two copies of one
//! process that differ in nothing but the bytes their random source hands out; nothing that
//! should be random may appear twice, within a life or in both.
use crate::fw::*;
use crate::procs;
use crate::sync::{self, Conf};
use crate::w::*;
use iota_stronghold::{Snapshot, SnapshotPath};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simrt::sched::PhaseEnd;
use simrt::{interpose, raw, sched, vfs, Rng, Sh};
use std::collections::{BTreeMap, BTreeSet, HashMap};

const ROOM: usize = 48 << 20;
const PROBE: &str = "/simfs/data/probe";

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Tok {
    /// epk: public keys made for one encryption; ct: tag and ciphertext of a file or export;
    /// key: of a vault; box: tag, nonce and ciphertext in a vault; blob: id of a record's
    /// contents; secret: a generated one; words: of a generated mnemonic
    cat: String,
    /// The same bytes may be seen again in the same place.
    place: String,
    bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, Default)]
struct Life {
    toks: Vec<Tok>,
    lines: Vec<String>,
    bad: Option<(String, String)>,
    end: String,
    note: String,
    steps: u64,
    fired: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
}
impl Life {
    fn tok(&mut self, cat: &str, place: String, bytes: &[u8]) {
        if !self.toks.iter().rev().any(|t| t.cat == cat && t.place == place && t.bytes == bytes) {
            self.toks.push(Tok { cat: cat.into(), place, bytes: bytes.into() });
        }
    }
    fn bump(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    /// A file or export: ephemeral public key, tag and ciphertext.
    fn sealed(&mut self, place: &str, b: &[u8]) {
        if b.len() >= 48 {
            self.tok("epk", place.into(), &b[..32]);
            self.tok("ct", place.into(), &b[32..]);
        } else {
            self.bad = Some(("format".into(), format!("{place} has {} bytes", b.len())));
        }
    }
}
type Clients<T> = HashMap<engine::vault::ClientId, T>;
/// Everything in a snapshot's plaintext; `like` only names the type.
fn parse<T: DeserializeOwned>(_like: &T, b: &[u8]) -> Option<Clients<T>> {
    bincode::deserialize(b).ok()
}
fn exported(st: Option<&Stored>, c: i64, v: i64, r: i64) -> bool {
    st.map_or(false, |s| s.present.contains(&(c, v, r)))
}
/// What a snapshot was found to hold.
#[derive(Default, Clone)]
struct Stored {
    present: BTreeSet<(i64, i64, i64)>,
    blobs: BTreeMap<(i64, i64, i64), Vec<Vec<u8>>>,
    secrets: BTreeMap<(i64, i64, i64), Vec<u8>>,
}
fn short(b: &[u8]) -> String {
    b.iter().take(12).map(|x| format!("{x:02x}")).collect::<String>()
}
/// Notes the keys and boxes in a snapshot's plaintext. Places of vault keys and boxes start with `who`.
fn look(life: &mut Life, who: &str, plain: &[u8], d: (i64, i64, i64)) -> Option<Stored> {
    let like = Snapshot::default().get_state(sync::client_id(0)).ok()?;
    let m = parse(&like, plain)?;
    let mut out = Stored::default();
    for c in 0..d.0 {
        let Some((keys, db, _)) = m.get(&sync::client_id(c)) else { continue };
        let all = db.export_all();
        for v in 0..d.1 {
            let vid = iota_stronghold::derive_vault_id(vpath(v));
            let Some(key) = keys.get(&vid) else { continue };
            let kb = key.key.borrow().to_vec();
            life.tok("key", format!("{who} client {c} vault {v}"), &kb);
            let Some(recs) = all.get(&vid) else { continue };
            for (rid, rec) in recs {
                // the record keeps the id of the place it was first written to
                let mut q = None;
                for w in 0..d.1 {
                    for r in 0..d.2 {
                        if loc(w, r).resolve().1 == *rid {
                            q = Some((w, r));
                        }
                    }
                }
                let Some((w, r)) = q else { continue };
                let b = bincode::serialize(rec).ok()?;
                let mut i = 24;
                let mut boxes = vec![];
                let mut take = |i: &mut usize| -> Option<Vec<u8>> {
                    let n = u64::from_le_bytes(b.get(*i..*i + 8)?.try_into().ok()?) as usize;
                    let x = b.get(*i + 8..*i + 8 + n)?.to_vec();
                    *i += 8 + n;
                    Some(x)
                };
                boxes.push(("data", take(&mut i)?));
                i += 1;
                if b[i - 1] == 1 {
                    boxes.push(("revocation", take(&mut i)?));
                }
                boxes.push(("blob", take(&mut i)?));
                for (k, x) in &boxes {
                    life.tok("box", format!("{who} client {c} vault {v} record {w}/{r} {k}"), x);
                }
                if boxes.len() == 2 && w == v {
                    out.present.insert((c, v, r));
                    let mut all: Vec<Vec<u8>> = boxes.into_iter().map(|x| x.1).collect();
                    if let Ok(id) = db.get_blob_id(key, vid, *rid) {
                        let id = bincode::serialize(&id).ok()?;
                        life.tok("blob", "any place".into(), &id);
                        all.push(id);
                    }
                    out.blobs.insert((c, v, r), all);
                    let mut s = vec![];
                    let _ = db.get_guard::<String, _>(key, vid, *rid, |g| {
                        s = g.borrow().to_vec();
                        Ok(())
                    });
                    out.secrets.insert((c, v, r), s);
                }
            }
        }
    }
    Some(out)
}
fn fkey(k: i64) -> [u8; 32] {
    key_bytes(k).try_into().unwrap()
}
struct World {
    se: Sess,
    d: (i64, i64, i64),
    n: u64,
    seen: BTreeMap<(i64, i64, i64), BTreeSet<Vec<u8>>>,
    last: Option<Stored>,
}
impl World {
    /// Reads a snapshot file: what is on the disk, and what its plaintext holds.
    fn file(&mut self, life: &mut Life, path: &str, key: i64) -> Option<Stored> {
        self.n += 1;
        let n = self.n;
        let b = sched::inert(|| std::fs::read(path).ok())?;
        if b.len() < 7 + 48 {
            return None;
        }
        life.sealed(&format!("file {n}"), &b[7..]);
        let d = self.d;
        sched::inert(|| {
            let plain = engine::snapshot::read_from(std::path::Path::new(path), &fkey(key), &[]).ok()?;
            look(life, "instance", &plain, d)
        })
    }
    fn dump(&mut self, life: &mut Life) {
        self.last = None;
        let ok = self.se.sh.commit_with_keyprovider(&SnapshotPath::from_path(PROBE), &keyprov(33)).is_ok();
        if ok {
            life.bump("dumps");
            self.last = self.file(life, PROBE, 33);
            if self.last.is_none() {
                life.bump("dumps_unreadable");
            }
        }
        sched::inert(|| std::fs::remove_file(PROBE).ok());
    }
    fn exec(&mut self, life: &mut Life, j: usize, o: &Op) -> String {
        let armed = vfs::v().armed;
        if !["restart", "commit", "create"].contains(&o.k.as_str()) && !self.se.h.contains_key(&o.n(0)) {
            self.se.exec(&op("create", &[o.n(0)]));
        }
        let mut target = None;
        let mut generated = false;
        let got = match o.k.as_str() {
            "rfail" => {
                vfs::v().armed = true;
                return String::new();
            }
            "rok" => {
                vfs::v().armed = false;
                return String::new();
            }
            // client, then a step
            "gen" => match self.se.h.get(&o.n(0)) {
                Some(c) => match procs::run_chain(&c.clone(), &o.a[1..], true) {
                    Ok(out) => {
                        target = Some((o.n(0), o.n(6), o.n(7)));
                        generated = true;
                        life.bump(procs::kind_name(o.n(1)));
                        if o.n(1) == 6 {
                            life.tok("words", format!("call {j}"), &out[0]);
                        }
                        "Ok".to_string()
                    }
                    Err(e) => e,
                },
                None => "Skip".into(),
            },
            "export" => {
                let snap = Snapshot::read_from_snapshot(&SnapshotPath::from_path(snap_path(o.n(1))), fkey(7), None);
                match snap {
                    Err(e) => format!("{e}"),
                    Ok(s) => {
                        let c = o.n(0);
                        let mut select = HashMap::new();
                        let st = self.saved(o.n(1));
                        for v in 0..self.d.1 {
                            let rs: Vec<_> = (0..self.d.2).filter(|r| exported(st.as_ref(), c, v, *r)).map(|r| loc(v, r).resolve().1).collect();
                            if !rs.is_empty() {
                                select.insert(iota_stronghold::derive_vault_id(vpath(v)), rs);
                            }
                        }
                        let sel: HashMap<_, _> = if select.is_empty() { HashMap::new() } else { [(sync::client_id(c), select)].into() };
                        match s.export_to_serialized_state(sel, crate::transfer::pk(1, 0)) {
                            Err(e) => format!("{e}"),
                            Ok((pk, b)) => {
                                life.bump("exports");
                                life.tok("epk", format!("handshake {j}"), &pk.to_bytes());
                                life.sealed(&format!("export {j}"), &b);
                                let shared = crate::transfer::secret_key(1, 0).diffie_hellman(&pk);
                                let d = self.d;
                                sched::inert(|| {
                                    let x = engine::snapshot::read(&mut b.as_slice(), shared.as_bytes(), &[]).ok().and_then(|p| engine::snapshot::decompress(&p).ok());
                                    if x.and_then(|p| look(life, &format!("export {j}"), &p, d)).is_none() {
                                        life.bump("exports_unreadable");
                                    }
                                });
                                "Ok".into()
                            }
                        }
                    }
                }
            }
            "purge" => {
                let r = self.se.exec(o);
                if r == Res::Ok {
                    self.se.h.remove(&o.n(0));
                }
                format!("{r:?}")
            }
            "restart" => {
                let n = Sess::new();
                let old = std::mem::replace(&mut self.se, n);
                std::mem::forget(old);
                let r = self.se.exec(&op("loads", &[o.n(0), 7]));
                for c in 0..self.d.0 {
                    self.se.exec(&op("load", &[c]));
                }
                format!("{r:?}")
            }
            "commit" => {
                let r = self.se.exec(o);
                if r == Res::Ok {
                    let d = self.file(life, &snap_path(o.n(0)), 7);
                    let _ = d;
                }
                format!("{r:?}")
            }
            k => {
                let r = sync::exec(&mut self.se, o, self.d.1, self.d.2);
                if r == Res::Ok {
                    match k {
                        "write" => target = Some((o.n(0), o.n(1), o.n(2))),
                        "copy" => target = Some((o.n(0), o.n(3), o.n(4))),
                        _ => {}
                    }
                }
                format!("{r:?}")
            }
        };
        if got == "Ok" && armed {
            life.bump("ok_with_failing_source");
        }
        let before = self.last.clone();
        self.dump(life);
        if let (Some(t), Some(st)) = (target, &self.last) {
            // a call that changed nothing may have had no reason to
            if let Some(bs) = st.blobs.get(&t).filter(|bs| before.as_ref().map_or(false, |b| b.blobs.get(&t) != Some(bs))) {
                let seen = self.seen.entry(t).or_default();
                for b in bs {
                    if seen.contains(b) {
                        life.bad = Some((
                            "encrypted-the-same".into(),
                            format!("call {j}, {}, wrote record {t:?} anew and left {}.. there, which an earlier write had left", o.s(), short(b)),
                        ));
                    }
                }
                life.bump("rewritten");
                if let (true, Some(s)) = (generated, st.secrets.get(&t)) {
                    if s.len() >= 16 {
                        life.tok("secret", format!("call {j}"), s);
                    }
                }
            }
        }
        if let Some(st) = &self.last {
            for (t, bs) in &st.blobs {
                self.seen.entry(*t).or_default().extend(bs.iter().cloned());
            }
        }
        got
    }
    fn saved(&self, p: i64) -> Option<Stored> {
        let d = self.d;
        sched::inert(|| {
            let plain = engine::snapshot::read_from(std::path::Path::new(&snap_path(p)), &fkey(7), &[]).ok()?;
            look(&mut Life::default(), "", &plain, d)
        })
    }
}
/// Lives a life in a process of its own and returns what it reports.
fn live(cx: &mut Cx, room: *mut u8, seed: u64) -> Result<Life, String> {
    unsafe { *(room as *mut u64) = 0 };
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err("fork failed".into());
    }
    if pid == 0 {
        unsafe {
            let it = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: 30, tv_usec: 0 } };
            raw::sys3(libc::SYS_setitimer, libc::ITIMER_PROF as i64, &it as *const _ as i64, 0);
        }
        interpose::seed_random(seed);
        let plan = cx.plan;
        let d = (plan.c("nc"), plan.c("nv"), plan.c("nr"));
        let out: Sh<Life> = Sh::new(Life::default());
        let (o2, ops) = (out.clone(), plan.threads[0].clone());
        let from_start = plan.c("toggled") == 0;
        cx.arm();
        vfs::v().armed = from_start;
        let end = cx.phase_raw(vec![(
            "life".into(),
            Box::new(move || {
                let mut w = World { se: Sess::new(), d, n: 0, seen: BTreeMap::new(), last: None };
                for (j, o) in ops.iter().enumerate() {
                    if vfs::v().armed {
                        sched::inert(|| o2.with(|l| l.lines.push(format!("call {j} {} (random bytes may fail)", o.s()))));
                    }
                    sched::event(|| format!("call {}", o.s()));
                    let mut life = o2.with(std::mem::take);
                    // what an unfinished call has learned is lost with it
                    let keep = sched::inert(|| Life { toks: life.toks.clone(), lines: life.lines.clone(), counts: life.counts.clone(), ..Default::default() });
                    o2.with(|l| *l = keep);
                    let r = w.exec(&mut life, j, o);
                    life.lines.push(format!("call {j} {} = {r}", o.s()));
                    let stop = life.bad.is_some();
                    o2.with(|l| *l = life);
                    if stop {
                        break;
                    }
                }
                vfs::v().armed = false;
                std::mem::forget(w);
            }),
        )]);
        let mut life = out.with(std::mem::take);
        life.end = format!("{end:?}");
        life.note = match end {
            PhaseEnd::Panic => sched::s().panic_msg.clone(),
            PhaseEnd::AllDone => String::new(),
            _ => sched::blocked_summary(),
        };
        life.fired = vfs::v().fired.clone();
        life.steps = sched::s().step;
        let b = bincode::serialize(&life).unwrap_or_default();
        if b.len() + 8 < ROOM {
            unsafe {
                core::ptr::copy_nonoverlapping(b.as_ptr(), room.add(8), b.len());
                *(room as *mut u64) = b.len() as u64;
            }
        }
        unsafe {
            raw::sys3(libc::SYS_exit_group, 0, 0, 0);
        }
        loop {}
    }
    let mut st = 0i32;
    while unsafe { raw::sys6(libc::SYS_wait4, pid as i64, &mut st as *mut _ as i64, 0, 0, 0, 0) } < 0 {}
    let n = unsafe { *(room as *const u64) } as usize;
    if libc::WIFSIGNALED(st) {
        return Err(format!("the process died with signal {}", libc::WTERMSIG(st)));
    }
    let b = unsafe { core::slice::from_raw_parts(room.add(8), n) };
    bincode::deserialize(b).map_err(|_| "no report".into())
}
/// Bytes that repeat where none may, or positions that never change.
fn judge(cx: &mut Cx, toks: &[(usize, Tok)]) {
    let mut uniq: Vec<(usize, &Tok)> = vec![];
    let mut whole: HashMap<&[u8], usize> = HashMap::new();
    for (l, t) in toks {
        if t.cat == "words" {
            continue;
        }
        match whole.get(&t.bytes[..]) {
            None => {
                whole.insert(&t.bytes, uniq.len());
                uniq.push((*l, t));
            }
            Some(i) => {
                let (l0, t0) = uniq[*i];
                if l0 != *l || t0.cat != t.cat || t0.place != t.place {
                    cx.violate(
                        &format!("repeated:{}", t.cat),
                        format!("{} {}.. of {} (life {l}) is that of {} (life {l0})", t.cat, short(&t.bytes), t.place, t0.place),
                    );
                    return;
                }
            }
        }
    }
    let mut win: HashMap<[u8; 16], (usize, usize)> = HashMap::new();
    for (i, (l, t)) in uniq.iter().enumerate() {
        for (o, w) in t.bytes.windows(16).enumerate() {
            if let Some((i0, o0)) = win.insert(w.try_into().unwrap(), (i, o)) {
                // a generated secret is the content of its record, never in the clear
                let (l0, t0) = uniq[i0];
                cx.violate(
                    &format!("repeated-part:{}", t.cat),
                    format!("16 bytes {}.. at {o} of the {} of {} (life {l}) are those at {o0} of the {} of {} (life {l0})", short(w), t.cat, t.place, t0.cat, t0.place),
                );
                return;
            }
        }
    }
    // positions: the first 40 bytes of a box are its tag and nonce
    for (cat, n) in [("epk", 31), ("key", 32), ("box", 40), ("blob", 24), ("ct", 16), ("secret", 16)] {
        let g: Vec<&[u8]> = uniq.iter().filter(|(_, t)| t.cat == cat && t.bytes.len() >= n).map(|(_, t)| &t.bytes[..]).collect();
        if g.len() < 10 {
            continue;
        }
        for p in 0..n {
            if g.iter().all(|b| b[p] == g[0][p]) {
                cx.violate(&format!("constant:{cat}"), format!("byte {p} of all {} different {cat} values is {:02x}", g.len(), g[0][p]));
                return;
            }
            if g.len() >= 70 && !(cat == "secret") {
                for bit in 0..8 {
                    if g.iter().all(|b| b[p] >> bit & 1 == g[0][p] >> bit & 1) {
                        cx.violate(&format!("constant:{cat}"), format!("bit {bit} of byte {p} of all {} different {cat} values is the same", g.len()));
                        return;
                    }
                }
            }
        }
    }
    let words: Vec<(usize, &Tok, Vec<String>)> = toks
        .iter()
        .filter(|(_, t)| t.cat == "words")
        .map(|(l, t)| (*l, t, String::from_utf8_lossy(&t.bytes).split(|c: char| c.is_whitespace()).map(|s| s.to_string()).collect()))
        .collect();
    for (i, a) in words.iter().enumerate() {
        for b in &words[..i] {
            let n = a.2.len().min(b.2.len());
            let same = (0..n).filter(|k| a.2[*k] == b.2[*k]).count();
            if same >= 5 {
                cx.violate("repeated:words", format!("the mnemonics of {} (life {}) and {} (life {}) share {same} words at their positions", a.1.place, a.0, b.1.place, b.0));
                return;
            }
        }
    }
}
pub struct Lives;
impl Scenario for Lives {
    fn property(&self) -> &'static str {
        "C21"
    }
    fn name(&self) -> &'static str {
        "two-lives"
    }
    fn quick_runs(&self) -> u64 {
        2800
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime as compiled from /repo, with the real generators of the crates they use; random source of the operating system, disk and clock simulated"
    }
    fn rule(&self) -> &'static str {
        "a random history of writes, copies, generated keys, synchronisation, commits, exports and restarts is lived twice in processes that differ only in the bytes the random source returns, with that source failing, falling short or being interrupted at any call or for a stretch of calls; ephemeral keys, ciphertexts, vault keys, boxes, blob ids, generated secrets and mnemonics may share nothing, and no byte position of them may be constant"
    }
    fn gen(&self, r: &mut Rng, _k: u64, thorough: bool) -> Plan {
        let mut p = Plan::new("C21", "two-lives", r.next() >> 1);
        let d = (1 + r.below(2) as i64, 1 + r.below(3) as i64, 1 + r.below(3) as i64);
        for (k, v) in [("nc", d.0), ("nv", d.1), ("nr", d.2)] {
            p.cfg.insert(k.into(), v);
        }
        let mut ops = vec![];
        for c in 0..d.0 {
            ops.push(op("create", &[c]));
        }
        let q = |r: &mut Rng, n: i64| r.below(n as u64) as i64;
        let mut w = [0u64; 12];
        for k in w.iter_mut() {
            *k = *r.pick(&[0, 1, 1, 2, 6]);
        }
        w[0] += 2;
        w[1] += 2;
        let toggled = r.chance(1, 3);
        let mut x = 0;
        let n = 5 + r.below(if thorough { 30 } else { 14 });
        let vals: Vec<i64> = (0..3).map(|_| q(r, NVAL)).collect();
        for _ in 0..n {
            let c = q(r, d.0);
            if toggled && r.chance(1, 3) {
                ops.push(op("rfail", &[]));
            }
            ops.push(match r.weighted(&w) {
                0 => op("write", &[c, q(r, d.1), q(r, d.2), *r.pick(&vals)]),
                1 => {
                    let mut s = procs::gen_step(r, d.1, d.2, &mut x);
                    s[0] = *r.pick(&[4, 6, 9, 9]);
                    s[7] = q(r, 12);
                    let mut a = vec![c];
                    a.extend(s);
                    op("gen", &a)
                }
                2 => op("copy", &[c, q(r, d.1), q(r, d.2), q(r, d.1), q(r, d.2)]),
                3 => op("revoke", &[c, q(r, d.1), q(r, d.2)]),
                4 => op("delete", &[c, q(r, d.1), q(r, d.2)]),
                5 => op("syncv", &[c, q(r, d.1), q(r, d.1), 1, 0]),
                6 => {
                    let mut a = vec![c, q(r, d.0)];
                    a.extend(Conf::gen(r, d.1, d.2));
                    op("syncw", &a)
                }
                7 => op("commit", &[0, 7]),
                8 => op("export", &[c, 0]),
                9 => op("restart", &[0]),
                10 => op("create", &[c]),
                _ => op("purge", &[c]),
            });
            if toggled && r.chance(1, 2) {
                ops.push(op("rok", &[]));
            }
        }
        p.threads = vec![ops];
        p.cfg.insert("toggled".into(), toggled as i64);
        let err = |r: &mut Rng| r.pick(&["EIO", "EIO", "ENOSYS", "EPERM", "short", "EINTR"]).to_string();
        if toggled {
            p.faults.push(FaultSpec { cls: "rand".into(), nth: 0, err: err(r), count: 1_000_000 });
        } else if r.chance(2, 3) {
            for _ in 0..1 + r.below(3) {
                p.faults.push(FaultSpec { cls: "rand".into(), nth: r.below(200), err: err(r), count: *r.pick(&[1, 1, 2, 5, 1_000_000]) });
            }
        }
        for f in &mut p.faults {
            // these are not failures: whoever asks again gets the bytes in the end
            if ["EINTR", "short"].contains(&f.err.as_str()) {
                f.count = f.count.min(1 + r.below(40));
            }
        }
        p.sched = SchedSpec::Seq;
        p
    }
    fn run(&self, cx: &mut Cx) {
        let room = unsafe {
            raw::sys6(libc::SYS_mmap, 0, ROOM as i64, (libc::PROT_READ | libc::PROT_WRITE) as i64, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as i64, -1, 0)
        } as *mut u8;
        let mut toks = vec![];
        for l in 0..2usize {
            let seed = Rng::new(cx.plan.seed ^ (l as u64 + 1).wrapping_mul(0x51ed_2701)).next();
            let life = match live(cx, room, seed) {
                Ok(x) => x,
                Err(e) => {
                    cx.violate("died", format!("life {l}: {e}"));
                    return;
                }
            };
            cx.sample.push(format!("life {l} ended with {} {}", life.end, life.note));
            cx.sample.extend(life.lines.iter().cloned());
            cx.add("steps_lived", life.steps);
            for (k, n) in &life.counts {
                cx.add(k, *n);
            }
            for (k, n) in &life.fired {
                *vfs::v().fired.entry(k.clone()).or_insert(0) += n;
            }
            let failing = life.fired.keys().any(|k| k.starts_with("rand:") && k != "rand:EINTR" && k != "rand:short");
            match life.end.as_str() {
                "AllDone" => {}
                "Panic" if failing => cx.count("stopped_without_random_bytes"),
                e => cx.violate(&format!("life:{e}"), format!("life {l}: {e}: {}", life.note)),
            }
            if let Some((s, m)) = life.bad {
                cx.violate(&s, format!("life {l}: {m}"));
            }
            if life.counts.get("rewritten").copied().unwrap_or(0) >= 2 {
                cx.count("nontrivial");
            }
            cx.add("values", life.toks.len() as u64);
            toks.extend(life.toks.into_iter().map(|t| (l, t)));
            if !cx.ok() {
                return;
            }
        }
        judge(cx, &toks);
    }
}
