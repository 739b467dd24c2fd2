//! The Stronghold world: operations against the real client API, and the reference model
//! that says what they may return.
use crate::fw::*;
use iota_stronghold::procedures as pr;
use iota_stronghold::{Client, ClientError, KeyProvider, Location, SnapshotPath, Stronghold};
use simrt::lin;
use simrt::{sched, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;
use std::time::Duration;

pub const NVAL: i64 = 160;
pub const REVOKED: i64 = -1;

/// The secret bytes that stand for value x.
pub fn secret(x: i64) -> Vec<u8> {
    let lens = [20usize, 16, 32, 64, 33, 100, 257, 1000, 4097, 24];
    let n = match x {
        // none at all, a single byte, and many pages
        2 if style() & 8 != 0 => 0,
        6 if style() & 8 != 0 => 1,
        9 if style() & 8 != 0 => 70_000,
        _ => lens[(x as usize) % lens.len()],
    };
    let mut b = vec![0u8; n];
    Rng::new(0xa11ce ^ (x as u64).wrapping_mul(0x9e37)).fill(&mut b);
    b
}
pub fn hmac(key: &[u8]) -> Vec<u8> {
    let mut mac = [0u8; 32];
    crypto::macs::hmac::HMAC_SHA256(b"probe", key, &mut mac);
    mac.to_vec()
}
pub fn hmac_table() -> &'static BTreeMap<Vec<u8>, i64> {
    static T: [OnceLock<BTreeMap<Vec<u8>, i64>>; 2] = [OnceLock::new(), OnceLock::new()];
    T[(style() >> 3 & 1) as usize].get_or_init(|| (0..NVAL).map(|x| (hmac(&secret(x)), x)).collect())
}
/// How names and store values look in this run: bits 0-1 choose the names, bit 2 makes some store
/// values long or empty, bit 3 some secrets, bit 4 uses counters
/// for every other location.
fn style() -> i64 {
    unsafe { STYLE }
}
pub fn sval(x: i64) -> Vec<u8> {
    let mut b = format!("store-value-{x}-").into_bytes();
    let letter = b'a' + (x % 26) as u8;
    if style() & 4 != 0 {
        let mut rnd = vec![0u8; 600];
        Rng::new(0x57a1 ^ x as u64).fill(&mut rnd);
        match x % 16 {
            // compresses well
            3 => b.resize(20_000 + x as usize, letter),
            // the same bytes again, up to and beyond the reach of a 16-bit offset
            6 => {
                b.extend_from_slice(&rnd);
                b.resize(65_520 + x as usize, 0);
                b.extend_from_slice(&rnd);
            }
            9 => b.extend(rnd.iter().cycle().take(3000)),
            12 => b.extend_from_slice(&rnd[..(x as usize * 13) % 600]),
            _ if x == 7 => b.clear(),
            _ => b.resize(20 + (x as usize * 11) % 40, letter),
        }
        return b;
    }
    b.resize(24 + (x as usize * 37) % 300, letter);
    b
}
pub fn sval_id(b: &[u8]) -> i64 {
    if b.is_empty() && style() & 4 != 0 {
        return 7;
    }
    let s = String::from_utf8_lossy(&b[..b.len().min(40)]).into_owned();
    let x = s.strip_prefix("store-value-").and_then(|s| s.split('-').next().map(|s| s.to_string())).and_then(|s| s.parse::<i64>().ok());
    match x {
        Some(x) if sval(x) == b => x,
        _ => -99,
    }
}
/// Names that differ in little: number n of a kind that starts with `what`.
fn name(what: &str, n: i64) -> Vec<u8> {
    // (a client and a vault of the same name have the same identifier)
    let client = what == "client";
    match style() & 3 {
        // one joined to another gives the same bytes as two others do
        1 => [if what == "rec" || what == "key" { vec![] } else if client { b"w".to_vec() } else { b"v".to_vec() }, vec![b'0'; n as usize]].concat(),
        // a long common beginning, and an end that is not text
        2 => [vec![if client { b'q' } else { b'p' }; 300], vec![0x80u8.wrapping_add(n as u8)]].concat(),
        // letters of different case, trailing blanks and zeros
        3 => {
            let mut b: Vec<u8> = (if client { 1 } else { 0 }..6).map(|i| if n >> i & 1 == 1 { b'A' } else { b'a' } + i as u8).collect();
            match n % 3 {
                1 => b.push(b' '),
                2 => b.push(0),
                _ => (),
            }
            b
        }
        _ => format!("{what}{n}").into_bytes(),
    }
}
pub fn skey(k: i64) -> Vec<u8> {
    name("key", k)
}
pub fn skey_id(b: &[u8]) -> Option<i64> {
    (0..64).find(|k| skey(*k) == b)
}
pub fn vpath(v: i64) -> Vec<u8> {
    name("vault", v)
}
pub fn rpath(r: i64) -> Vec<u8> {
    name("rec", r)
}
pub fn loc(v: i64, r: i64) -> Location {
    if style() & 16 != 0 && r % 2 == 1 {
        Location::counter(vpath(v), [1usize, 257, 65_537, 10, 0x1_0000_0001, 0][(r / 2 % 6) as usize])
    } else if r >= 50 {
        Location::counter(vpath(v), (r - 50) as usize)
    } else {
        Location::generic(vpath(v), rpath(r))
    }
}
pub fn cpath(c: i64) -> Vec<u8> {
    name("client", c)
}
pub fn key_bytes(k: i64) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    Rng::new(0x6e79 ^ (k as u64)).fill(&mut b);
    b
}
pub fn keyprov(k: i64) -> KeyProvider {
    let phrase = crate::removal::passphrase(k).into_bytes();
    match k / 100 {
        1 => return KeyProvider::with_passphrase_truncated(phrase).expect("32 bytes"),
        2 => return KeyProvider::with_passphrase_hashed_blake2b(phrase).expect("32 bytes"),
        3 => return KeyProvider::with_passphrase_hashed_argon2(phrase, b"a salt of sixteen".to_vec()).expect("32 bytes"),
        _ => {}
    }
    KeyProvider::try_from(key_bytes(k)).expect("32 bytes")
}
/// Where a snapshot key is stored: its own place, one place for all, or under names that are
/// also in use for something else.
pub fn key_loc(k: i64, variant: i64) -> Location {
    match variant {
        0 => Location::generic("snapkey", format!("k{k}").into_bytes()),
        1 => Location::generic("snapkey", "k"),
        2 => Location::generic(cpath(0), "k"),
        3 => Location::counter("snapkey", k as usize),
        _ => Location::generic(vpath(0), rpath(0)),
    }
}
pub fn snap_path(p: i64) -> String {
    match p {
        0 => "/simfs/data/snap".into(),
        1 => "/simfs/data/second.stronghold".into(),
        // by name, in the home directory
        4 => "/simfs/home/.stronghold/named".into(),
        // relative to the working directory
        5 => "snap".into(),
        6 => "some/where/snap.stronghold".into(),
        p => format!("/simfs/data/d{p}/e/snap"),
    }
}
/// Where the simulated disk keeps that file.
pub fn snap_file(p: i64) -> String {
    let s = snap_path(p);
    if s.starts_with('/') {
        s
    } else {
        format!("/simfs/cwd/{s}")
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum Res {
    Ok,
    Err(String),
    Bool(bool),
    Val(i64),
    None,
    List(Vec<i64>),
    /// Something no correct implementation returns.
    Bad(String),
    Skip,
}
pub fn cerr(e: ClientError) -> Res {
    let k = match &e {
        ClientError::ClientDataNotPresent => "NotPresent".into(),
        ClientError::ClientAlreadyLoaded(_) => "AlreadyLoaded".into(),
        ClientError::SnapshotFileMissing(_) => "FileMissing".into(),
        ClientError::SnapshotKeyLocationMissing => "KeyLocationMissing".into(),
        ClientError::LockAcquireFailed => "LockPoisoned".into(),
        e => format!("{e:?}").chars().take(60).collect::<String>(),
    };
    Res::Err(k)
}
fn unit(r: Result<(), ClientError>) -> Res {
    match r {
        Ok(()) => Res::Ok,
        Err(e) => cerr(e),
    }
}

/// One user's view: the shared Stronghold and this user's client handles.
#[derive(Clone)]
pub struct Sess {
    pub sh: Stronghold,
    pub h: BTreeMap<i64, Client>,
}
impl Sess {
    pub fn new() -> Sess {
        Sess { sh: Stronghold::default(), h: BTreeMap::new() }
    }
    pub fn exec(&mut self, op: &Op) -> Res {
        let k = op.k.as_str();
        let sp = |p: i64| {
            if p == 4 {
                // (its constructor creates the directory and cannot report errors)
                return simrt::sched::inert(|| {
                    let a = std::mem::replace(&mut simrt::vfs::v().armed, false);
                    let s = SnapshotPath::named("named");
                    simrt::vfs::v().armed = a;
                    s
                });
            }
            SnapshotPath::from_path(snap_path(p))
        };
        match k {
            "create" => match self.sh.create_client(cpath(op.n(0))) {
                Ok(c) => {
                    self.h.insert(op.n(0), c);
                    Res::Ok
                }
                Err(e) => cerr(e),
            },
            "get" => match self.sh.get_client(cpath(op.n(0))) {
                Ok(c) => {
                    self.h.insert(op.n(0), c);
                    Res::Ok
                }
                Err(e) => cerr(e),
            },
            "load" => match self.sh.load_client(cpath(op.n(0))) {
                Ok(c) => {
                    self.h.insert(op.n(0), c);
                    Res::Ok
                }
                Err(e) => cerr(e),
            },
            "loadf" => match self.sh.load_client_from_snapshot(cpath(op.n(0)), &keyprov(op.n(2)), &sp(op.n(1))) {
                Ok(c) => {
                    self.h.insert(op.n(0), c);
                    Res::Ok
                }
                Err(e) => cerr(e),
            },
            "loads" => unit(self.sh.load_snapshot(&keyprov(op.n(1)), &sp(op.n(0)))),
            "commit" => unit(self.sh.commit_with_keyprovider(&sp(op.n(0)), &keyprov(op.n(1)))),
            "commitk" => unit(self.sh.commit(&sp(op.n(0)))),
            "setkey" => unit(self.sh.store_snapshot_key_at_location(keyprov(op.n(0)), key_loc(op.n(0), op.n(1)))),
            "spoil" => {
                crate::removal::spoil(op.n(0), op.n(1), op.n(2), op.n(3));
                Res::Ok
            }
            "unspoil" => {
                crate::removal::unspoil(op.n(0));
                Res::Ok
            }
            "older" => {
                crate::removal::keep_older(op.n(0));
                Res::Ok
            }
            "commitp" => match KeyProvider::with_passphrase_hashed_blake2b(crate::removal::passphrase(op.n(1)).into_bytes()) {
                Ok(k) => unit(self.sh.commit_with_keyprovider(&sp(op.n(0)), &k)),
                Err(e) => cerr(e),
            },
            "ncfile" => crate::memory::ncfile(op.n(0), op.n(1), op.n(2)),
            "fmem" => crate::memory::fmem(op.n(0), op.n(1)),
            "wclient" => unit(self.sh.write_client(cpath(op.n(0)))),
            "clear" => unit(self.sh.clear()),
            "ssput" | "ssget" => {
                let st = self.sh.store();
                store_op(&st, if k == "ssput" { "sput" } else { "sget" }, op, 0)
            }
            _ => {
                let c = match self.h.get(&op.n(0)) {
                    Some(c) => c.clone(),
                    None => return Res::Skip,
                };
                self.client_op(&c, op)
            }
        }
    }
    pub fn client_op(&self, c: &Client, op: &Op) -> Res {
        let k = op.k.as_str();
        match k {
            "unload" => match self.sh.unload_client(c.clone()) {
                Ok(_) => Res::Ok,
                Err(e) => cerr(e),
            },
            "purge" => unit(self.sh.purge_client(c.clone())),
            "write" => unit(c.vault(vpath(op.n(1))).write_secret(loc(op.n(1), op.n(2)), secret(op.n(3)))),
            "pwrite" => match c.execute_procedure(pr::WriteVault { data: secret(op.n(3)), location: loc(op.n(1), op.n(2)) }) {
                Ok(()) => Res::Ok,
                Err(e) => Res::Err(format!("{e:?}").chars().take(60).collect()),
            },
            "read" => read(c, &loc(op.n(1), op.n(2))),
            "exists" => match c.record_exists(&loc(op.n(1), op.n(2))) {
                Ok(b) => Res::Bool(b),
                Err(e) => cerr(e),
            },
            "vexists" => match c.vault_exists(vpath(op.n(1))) {
                Ok(b) => Res::Bool(b),
                Err(e) => cerr(e),
            },
            "revoke" => {
                if op.n(2) >= 50 {
                    match c.execute_procedure(pr::RevokeData { location: loc(op.n(1), op.n(2)), should_gc: false }) {
                        Ok(()) => Res::Ok,
                        Err(e) => Res::Err(format!("{e:?}").chars().take(60).collect()),
                    }
                } else {
                    unit(c.vault(vpath(op.n(1))).revoke_secret(rpath(op.n(2))))
                }
            }
            "cleanup" => match c.vault(vpath(op.n(1))).cleanup() {
                Ok(b) => Res::Bool(b),
                Err(e) => cerr(e),
            },
            "delete" => match c.vault(vpath(op.n(1))).delete_secret(rpath(op.n(2))) {
                Ok(b) => Res::Bool(b),
                Err(e) => cerr(e),
            },
            "copy" => match c.execute_procedure(pr::CopyRecord { source: loc(op.n(1), op.n(2)), target: loc(op.n(3), op.n(4)) }) {
                Ok(()) => Res::Ok,
                Err(e) => Res::Err(format!("{e:?}").chars().take(60).collect()),
            },
            _ => store_op(&c.store(), k, op, 1),
        }
    }
}
pub fn read(c: &Client, l: &Location) -> Res {
    match c.execute_procedure(pr::Hmac { hash_type: pr::Sha2Hash::Sha256, msg: b"probe".to_vec(), key: l.clone() }) {
        Ok(m) => sched::inert(|| match hmac_table().get(&m) {
            Some(x) => Res::Val(*x),
            None => Res::Bad("a secret that was never written".into()),
        }),
        Err(e) => Res::Err(format!("{e:?}").chars().take(60).collect()),
    }
}
pub fn store_op(st: &iota_stronghold::Store, k: &str, op: &Op, o: usize) -> Res {
    let opt = |r: Result<Option<Vec<u8>>, ClientError>| match r {
        Ok(None) => Res::None,
        Ok(Some(b)) => match sval_id(&b) {
            -99 => Res::Bad("a store value that was never written".into()),
            x => Res::Val(x),
        },
        Err(e) => cerr(e),
    };
    match k {
        // key, value, lifetime in ms (0: none)
        "sput" => {
            let d = op.n(o + 2);
            opt(st.insert(skey(op.n(o)), sval(op.n(o + 1)), if d == 0 { None } else { Some(Duration::from_millis(d as u64)) }))
        }
        "sget" => opt(st.get(&skey(op.n(o)))),
        "sdel" => opt(st.delete(&skey(op.n(o)))),
        "shas" => match st.contains_key(&skey(op.n(o))) {
            Ok(b) => Res::Bool(b),
            Err(e) => cerr(e),
        },
        "skeys" => match st.keys() {
            Ok(v) => {
                let mut l: Vec<i64> = vec![];
                for b in v {
                    match sched::inert(|| skey_id(&b)) {
                        Some(x) if !l.contains(&x) => l.push(x),
                        _ => return Res::Bad("an unknown or duplicate key".into()),
                    }
                }
                l.sort();
                Res::List(l)
            }
            Err(e) => cerr(e),
        },
        "sclear" => match st.clear() {
            Ok(()) => Res::Ok,
            Err(e) => cerr(e),
        },
        k => Res::Bad(format!("unknown op {k}")),
    }
}

// ---------------------------------------------------------------- reference model
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct Obj {
    pub vaults: BTreeMap<i64, BTreeMap<i64, i64>>,
    pub store: BTreeMap<i64, i64>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct File {
    pub key: i64,
    pub clients: BTreeMap<i64, Obj>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct St {
    pub epoch: u64,
    pub objs: Vec<Obj>,
    pub loaded: BTreeMap<i64, usize>,
    pub h: BTreeMap<(usize, i64), usize>,
    pub mem: BTreeMap<i64, Obj>,
    pub disk: BTreeMap<i64, File>,
    pub keyloc: Option<i64>,
    pub sstore: BTreeMap<i64, i64>,
    /// Operation in progress -> what remains of it.
    pub parts: BTreeMap<usize, BTreeSet<i64>>,
}
#[derive(Clone, Debug)]
pub struct MOp {
    pub id: usize,
    pub task: usize,
    pub epoch: u64,
    pub op: Op,
    pub sub: u8,
    /// What was observed; None: the operation never returned.
    pub res: Option<Res>,
}
pub struct SModel {
    /// Commit failures may or may not have replaced the file.
    pub lax_fail: bool,
    /// Loads from the file may fail.
    pub lax_load: bool,
}
impl SModel {
    fn ok(&self, seen: &Option<Res>, want: Res) -> bool {
        match seen {
            None => true,
            Some(r) => match (r, &want) {
                (Res::Err(_), Res::Err(w)) if w == "*" => true,
                (a, b) => a == b,
            },
        }
    }
    /// A step inside one client object.
    pub fn obj_step(&self, o: &Obj, op: &Op, sub: u8, seen: &Option<Res>) -> Vec<Obj> {
        let any = || Res::Err("*".into());
        let mut n = o.clone();
        let (v, r) = (op.n(1), op.n(2));
        let rec = |o: &Obj, v: i64, r: i64| o.vaults.get(&v).and_then(|m| m.get(&r)).copied();
        let one = |c: bool, n: Obj| if c { vec![n] } else { vec![] };
        match op.k.as_str() {
            "write" | "pwrite" => {
                let e = n.vaults.entry(v).or_default();
                if e.get(&r) == Some(&REVOKED) {
                    one(self.ok(seen, any()), n)
                } else {
                    e.insert(r, op.n(3));
                    one(self.ok(seen, Res::Ok), n)
                }
            }
            "read" => {
                let w = match rec(o, v, r) {
                    Some(x) if x != REVOKED => Res::Val(x),
                    _ => any(),
                };
                one(self.ok(seen, w), n)
            }
            "exists" => one(self.ok(seen, Res::Bool(rec(o, v, r).map(|x| x != REVOKED).unwrap_or(false))), n),
            "vexists" => one(self.ok(seen, Res::Bool(o.vaults.contains_key(&v))), n),
            "delete" if sub == 0 => {
                if let Some(x) = n.vaults.get_mut(&v).and_then(|m| m.get_mut(&r)) {
                    *x = REVOKED;
                }
                vec![n]
            }
            "revoke" => {
                if let Some(x) = n.vaults.get_mut(&v).and_then(|m| m.get_mut(&r)) {
                    *x = REVOKED;
                }
                one(self.ok(seen, Res::Ok), n)
            }
            "cleanup" | "delete" => {
                let ex = n.vaults.contains_key(&v);
                if let Some(m) = n.vaults.get_mut(&v) {
                    m.retain(|_, x| *x != REVOKED);
                }
                one(self.ok(seen, Res::Bool(ex)), n)
            }
            "copy" => {
                let (v2, r2) = (op.n(3), op.n(4));
                match rec(o, v, r) {
                    Some(x) if x != REVOKED => {
                        let e = n.vaults.entry(v2).or_default();
                        if e.get(&r2) == Some(&REVOKED) {
                            return one(self.ok(seen, any()), n);
                        }
                        e.insert(r2, x);
                        one(self.ok(seen, Res::Ok), n)
                    }
                    _ => {
                        if !self.ok(seen, any()) {
                            return vec![];
                        }
                        let mut out = vec![n.clone()];
                        if !n.vaults.contains_key(&v2) {
                            n.vaults.insert(v2, BTreeMap::new());
                            out.push(n);
                        }
                        out
                    }
                }
            }
            "sput" => {
                let old = n.store.insert(op.n(1), op.n(2)).map(Res::Val).unwrap_or(Res::None);
                one(self.ok(seen, old), n)
            }
            "sget" => one(self.ok(seen, o.store.get(&op.n(1)).map(|x| Res::Val(*x)).unwrap_or(Res::None)), n),
            "sdel" => {
                let old = n.store.remove(&op.n(1)).map(Res::Val).unwrap_or(Res::None);
                one(self.ok(seen, old), n)
            }
            "shas" => one(self.ok(seen, Res::Bool(o.store.contains_key(&op.n(1)))), n),
            "skeys" => one(self.ok(seen, Res::List(o.store.keys().copied().collect())), n),
            "sclear" => {
                n.store.clear();
                one(self.ok(seen, Res::Ok), n)
            }
            k => panic!("model: unknown op {k}"),
        }
    }
    fn file_load(&self, s: &St, p: i64, key: i64) -> Result<BTreeMap<i64, Obj>, ()> {
        match s.disk.get(&p) {
            Some(f) if f.key == key => Ok(f.clients.clone()),
            _ => Err(()),
        }
    }
}
/// The object behind a task's handle; tasks start with copies of the handles of task 0.
fn handle(s: &St, task: usize, c: i64) -> Option<usize> {
    s.h.get(&(task, c)).or_else(|| s.h.get(&(0, c))).copied()
}
/// The incarnation of the process in which an entry ran.
pub fn epochs(h: &[HEnt<Res>]) -> impl Fn(&HEnt<Res>) -> u64 + '_ {
    move |e| h.iter().filter(|x| x.op.k == "restart" && x.inv <= e.inv).count() as u64
}
impl lin::Model for SModel {
    type S = St;
    type O = MOp;
    fn step(&self, s: &St, o: &MOp) -> Vec<St> {
        if s.epoch != o.epoch {
            if o.op.k == "restart" && o.epoch == s.epoch + 1 {
                return vec![St { epoch: o.epoch, disk: s.disk.clone(), ..Default::default() }];
            }
            return vec![];
        }
        let any = || Res::Err("*".into());
        let one = |c: bool, n: St| if c { vec![n] } else { vec![] };
        let mut n = s.clone();
        let op = &o.op;
        let c = op.n(0);
        let bind = |n: &mut St, obj: Obj| {
            n.objs.push(obj);
            let i = n.objs.len() - 1;
            n.loaded.insert(c, i);
            n.h.insert((o.task, c), i);
        };
        if o.res == Some(Res::Skip) {
            return vec![n];
        }
        match op.k.as_str() {
            "create" => {
                bind(&mut n, Obj::default());
                one(self.ok(&o.res, Res::Ok), n)
            }
            "get" => match s.loaded.get(&c) {
                Some(i) => {
                    n.h.insert((o.task, c), *i);
                    one(self.ok(&o.res, Res::Ok), n)
                }
                None => one(self.ok(&o.res, Res::Err("NotPresent".into())), n),
            },
            "load" => {
                if s.loaded.contains_key(&c) {
                    return one(self.ok(&o.res, Res::Err("AlreadyLoaded".into())), n);
                }
                match s.mem.get(&c) {
                    None => one(self.ok(&o.res, Res::Err("NotPresent".into())), n),
                    Some(b) => {
                        bind(&mut n, b.clone());
                        one(self.ok(&o.res, Res::Ok), n)
                    }
                }
            }
            "loadf" => {
                let f = self.file_load(s, op.n(1), op.n(2));
                if s.loaded.contains_key(&c) {
                    return one(self.ok(&o.res, any()), n);
                }
                if self.lax_load && matches!(o.res, Some(Res::Err(_))) {
                    return vec![n];
                }
                match f {
                    Err(()) => one(self.ok(&o.res, any()), n),
                    Ok(m) => {
                        n.mem = m;
                        match n.mem.get(&c).cloned() {
                            // a client the file does not have: an error, or a new empty one
                            None if matches!(o.res, Some(Res::Err(_))) => vec![n],
                            None => {
                                bind(&mut n, Obj::default());
                                one(self.ok(&o.res, Res::Ok), n)
                            }
                            Some(b) => {
                                bind(&mut n, b);
                                one(self.ok(&o.res, Res::Ok), n)
                            }
                        }
                    }
                }
            }
            "loads" if self.lax_load && matches!(o.res, Some(Res::Err(_))) => vec![n],
            "spoil" => {
                if let Some(f) = n.disk.get_mut(&c) {
                    f.key = f.key.rem_euclid(1000) + 1000;
                }
                vec![n]
            }
            "unspoil" => {
                if let Some(f) = n.disk.get_mut(&c) {
                    f.key = f.key.rem_euclid(1000);
                }
                vec![n]
            }
            "older" => vec![n],
            "loads" => match self.file_load(s, c, op.n(1)) {
                Err(()) => one(self.ok(&o.res, any()), n),
                Ok(m) => {
                    n.mem = m;
                    one(self.ok(&o.res, Res::Ok), n)
                }
            },
            "setkey" => {
                n.keyloc = Some(c);
                one(self.ok(&o.res, Res::Ok), n)
            }
            "commit" | "commitk" => {
                let id = o.id;
                let failed = matches!(o.res, Some(Res::Err(_)) | None);
                match o.sub {
                    0 => {
                        n.parts.insert(id, s.loaded.keys().copied().collect());
                        vec![n]
                    }
                    1 => {
                        let p = s.parts.get(&id).cloned().unwrap_or_default();
                        let mut out = vec![];
                        if p.is_empty() || failed {
                            out.push(n.clone());
                        }
                        for c in p.iter() {
                            if let Some(i) = s.loaded.get(c) {
                                let mut m = n.clone();
                                m.parts.get_mut(&id).unwrap().remove(c);
                                m.mem.insert(*c, s.objs[*i].clone());
                                out.push(m);
                            }
                        }
                        out
                    }
                    _ => {
                        let rest = n.parts.remove(&id).unwrap_or_default();
                        let key = if op.k == "commit" { Some(op.n(1)) } else { s.keyloc };
                        let mut out = vec![];
                        let mut published = n.clone();
                        if let Some(k) = key {
                            if rest.is_empty() {
                                published.disk.insert(c, File { key: k, clients: n.mem.clone() });
                            }
                        }
                        match &o.res {
                            Some(Res::Ok) => {
                                if key.is_some() && rest.is_empty() {
                                    out.push(published);
                                }
                            }
                            Some(Res::Err(_)) => {
                                if key.is_none() {
                                    out.push(n);
                                } else if self.lax_fail {
                                    out.push(n);
                                    out.push(published);
                                }
                            }
                            None => {
                                out.push(n);
                                out.push(published);
                            }
                            _ => {}
                        }
                        out
                    }
                }
            }
            "wclient" => match s.loaded.get(&c) {
                None => one(self.ok(&o.res, Res::Err("NotPresent".into())), n),
                Some(i) => {
                    let b = s.objs[*i].clone();
                    n.mem.insert(c, b);
                    one(self.ok(&o.res, Res::Ok), n)
                }
            },
            "clear" => {
                // parts: -1 everything reachable by name, -2 session store, -3 key location, i>=0 object i
                let id = o.id;
                if o.sub == 0 {
                    let mut p: BTreeSet<i64> = [-1, -2, -3].into();
                    p.extend(s.loaded.values().map(|i| *i as i64));
                    n.parts.insert(id, p);
                    return vec![n];
                }
                if o.sub == 2 {
                    return one(s.parts.get(&id).map(|p| p.is_empty()).unwrap_or(false) && self.ok(&o.res, Res::Ok), {
                        n.parts.remove(&id);
                        n
                    });
                }
                let p = s.parts.get(&id).cloned().unwrap_or_default();
                if p.is_empty() {
                    return vec![n];
                }
                let mut out = vec![];
                for x in p {
                    let mut m = n.clone();
                    m.parts.get_mut(&id).unwrap().remove(&x);
                    match x {
                        -1 => {
                            // clients that became loaded since the beginning are cleared as well
                            let add: Vec<i64> = m.loaded.values().map(|i| *i as i64).filter(|i| !s.parts[&id].contains(i)).collect();
                            let pp = m.parts.get_mut(&id).unwrap();
                            pp.extend(add);
                            m.mem.clear();
                            m.loaded.clear();
                        }
                        -2 => m.sstore.clear(),
                        -3 => m.keyloc = None,
                        i => m.objs[i as usize] = Obj::default(),
                    }
                    out.push(m);
                }
                out
            }
            "unload" => match handle(s, o.task, c) {
                None => vec![],
                Some(_) => {
                    if n.loaded.remove(&c).is_some() {
                        one(self.ok(&o.res, Res::Ok), n)
                    } else {
                        one(self.ok(&o.res, Res::Err("NotPresent".into())), n)
                    }
                }
            },
            "purge" => {
                // parts: -1 the registry and the saved state, i>=0 the data of object i
                let id = o.id;
                match o.sub {
                    0 => {
                        let mut p: BTreeSet<i64> = [-1].into();
                        p.extend(s.loaded.get(&c).map(|i| *i as i64));
                        match handle(s, o.task, c) {
                            None => return vec![],
                            Some(i) => p.insert(i as i64),
                        };
                        n.parts.insert(id, p);
                        vec![n]
                    }
                    2 => one(s.parts.get(&id).map(|p| p.is_empty()).unwrap_or(false) && self.ok(&o.res, Res::Ok), {
                        n.parts.remove(&id);
                        n
                    }),
                    _ => {
                        let p = s.parts.get(&id).cloned().unwrap_or_default();
                        if p.is_empty() {
                            return vec![n];
                        }
                        let mut out = vec![];
                        for x in p {
                            let mut m = n.clone();
                            m.parts.get_mut(&id).unwrap().remove(&x);
                            if x < 0 {
                                // the object removed is the one that is wiped
                                if let Some(i) = m.loaded.remove(&c) {
                                    if !s.parts[&id].contains(&(i as i64)) && m.objs[i] != Obj::default() {
                                        m.parts.get_mut(&id).unwrap().insert(i as i64);
                                    }
                                }
                                m.mem.remove(&c);
                            } else {
                                m.objs[x as usize] = Obj::default();
                            }
                            out.push(m);
                        }
                        out
                    }
                }
            }
            "ssput" => {
                let old = n.sstore.insert(op.n(0), op.n(1)).map(Res::Val).unwrap_or(Res::None);
                one(self.ok(&o.res, old), n)
            }
            "ssget" => one(self.ok(&o.res, s.sstore.get(&op.n(0)).map(|x| Res::Val(*x)).unwrap_or(Res::None)), n),
            "restart" => vec![],
            _ => match handle(s, o.task, c) {
                None => vec![],
                Some(i) => self
                    .obj_step(&s.objs[i], op, o.sub, &o.res)
                    .into_iter()
                    .map(|b| {
                        let mut m = n.clone();
                        m.objs[i] = b;
                        m
                    })
                    .collect(),
            },
        }
    }
}

/// How many atomic steps an operation may take in the model.
fn subs(op: &Op, nclients: usize, nobjs: usize) -> Vec<u8> {
    match op.k.as_str() {
        "commit" | "commitk" => {
            let mut v = vec![0];
            v.extend(std::iter::repeat(1).take(nclients));
            v.push(2);
            v
        }
        "clear" => {
            let mut v = vec![0];
            v.extend(std::iter::repeat(1).take(3 + nobjs));
            v.push(2);
            v
        }
        "purge" => vec![0, 1, 1, 1, 1, 2],
        "delete" => vec![0, 1],
        _ => vec![0],
    }
}
/// The threads of the linearizability check from a history. Task numbers in the history are
/// the columns; `epoch_of` says in which incarnation of the process an entry ran.
pub fn entries(h: &[HEnt<Res>], epoch_of: impl Fn(&HEnt<Res>) -> u64, nclients: usize) -> Vec<Vec<lin::Entry<MOp>>> {
    let nt = h.iter().map(|e| e.task).max().unwrap_or(0) + 1;
    let nobjs = h.iter().filter(|e| ["create", "load", "loadf"].contains(&e.op.k.as_str())).count().min(8);
    let mut out: Vec<Vec<lin::Entry<MOp>>> = vec![vec![]; nt];
    for (id, e) in h.iter().enumerate() {
        let ep = epoch_of(e);
        out[e.task].push(lin::Entry {
            inv: e.inv,
            ret: e.ret,
            subs: subs(&e.op, nclients, nobjs)
                .into_iter()
                .map(|s| MOp { id, task: e.task, epoch: ep, op: e.op.clone(), sub: s, res: e.res.clone() })
                .collect(),
            pending: e.ret == u64::MAX,
            label: format!("{} = {:?}", e.op.s(), e.res),
        });
    }
    out
}
/// Reports results that no interleaving explains.
pub fn check_lin(cx: &mut Cx, m: &SModel, init: St, th: &[Vec<lin::Entry<MOp>>], what: &str) {
    for t in th {
        for e in t {
            if let Some(Res::Bad(b)) = &e.subs[0].res {
                cx.violate(&format!("{what}:bad-value"), format!("{}: {b}", e.label));
            }
        }
    }
    if !cx.ok() {
        return;
    }
    match lin::check(m, &[init], th, 400_000) {
        lin::Verdict::Ok(n) => cx.add("lin_nodes", n),
        lin::Verdict::Unknown => cx.count("lin_unknown"),
        lin::Verdict::Bad(d) => cx.violate(what, format!("no order of the operations explains the results: {d}")),
    }
}
/// Tasks for the concurrent part: one per list of operations, each with its own copy of the session.
pub fn tasks(hist: &Hist<Res>, sess: &Sess, threads: &[Vec<Op>], base: usize) -> Vec<(String, TaskFn)> {
    threads
        .iter()
        .enumerate()
        .filter(|(_, t)| !t.is_empty())
        .map(|(i, ops)| {
            let (h, mut se, ops) = (hist.clone(), sess.clone(), ops.clone());
            let f: TaskFn = Box::new(move || {
                for (j, o) in ops.iter().enumerate() {
                    h.run(base + i, j, o, || se.exec(o));
                }
            });
            (format!("user{}", base + i), f)
        })
        .collect()
}
/// Runs operations one after the other as one task; the session is handed back.
pub fn seq(cx: &mut Cx, hist: &Hist<Res>, mut sess: Sess, ops: Vec<Op>, task: usize) -> Option<Sess> {
    let h = hist.clone();
    cx.solo("seq", move || {
        for (j, o) in ops.iter().enumerate() {
            h.run(task, j, o, || sess.exec(o));
        }
        sess
    })
}
