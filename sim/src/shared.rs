//! C17: several instances, threads of one program or programs of their own, that share one
//! snapshot file.
use crate::fw::*;
use crate::persist::*;
use crate::w::*;
use simrt::sched::PhaseEnd;
use simrt::{lin, sched, vfs, Rng, Sh};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum R {
    Ok,
    Err(String),
    /// What was loaded is exactly what the commit with this tag wrote.
    Tag(i64),
    Bad(String),
}
const NK: i64 = 3;
const NV: i64 = 2;
const NR: i64 = 2;
/// The store entry that tells the commits apart.
const TAG: i64 = 9;
/// What a client holds: store entries (0, key) and records (1, vault and record).
type Content = BTreeMap<(u8, i64), i64>;
type Written = Sh<BTreeMap<i64, [Content; 2]>>;

struct Instance {
    se: Sess,
    has: [Content; 2],
    path: i64,
    written: Written,
}
impl Instance {
    fn fresh(path: i64, written: &Written) -> Instance {
        Instance { se: Sess::new(), has: Default::default(), path, written: written.clone() }
    }
    fn must(&mut self, o: Op, want: Res) -> Result<(), String> {
        match self.se.exec(&o) {
            r if r == want => Ok(()),
            r => Err(format!("{} = {r:?} instead of {want:?}", o.s())),
        }
    }
    fn make(&mut self) -> Result<(), String> {
        self.must(op("create", &[0]), Res::Ok)?;
        self.must(op("create", &[1]), Res::Ok)
    }
    fn put(&mut self, c: i64, k: i64, x: i64) -> Result<(), String> {
        let old = self.has[c as usize].insert((0, k), x);
        self.must(op("sput", &[c, k, x]), old.map(Res::Val).unwrap_or(Res::None))
    }
    /// What a client that was loaded holds.
    fn look(&mut self, c: i64) -> R {
        let mut got = Content::new();
        for k in (0..NK).chain([TAG]) {
            match self.se.exec(&op("sget", &[c, k])) {
                Res::Val(x) => {
                    got.insert((0, k), x);
                }
                Res::None => {}
                r => return R::Bad(format!("store entry {k} of client {c}: {r:?}")),
            }
        }
        for v in 0..NV {
            for q in 0..NR {
                match self.se.exec(&op("exists", &[c, v, q])) {
                    Res::Bool(false) => continue,
                    Res::Bool(true) => {}
                    r => return R::Bad(format!("record {v}/{q} of client {c}: {r:?}")),
                }
                match self.se.exec(&op("read", &[c, v, q])) {
                    Res::Val(x) => {
                        got.insert((1, v * 10 + q), x);
                    }
                    r => return R::Bad(format!("record {v}/{q} of client {c}: {r:?}")),
                }
            }
        }
        let Some(tag) = got.get(&(0, TAG)).copied() else {
            return R::Bad(format!("client {c} has nothing that every commit wrote"));
        };
        let want = self.written.with(|w| w.get(&tag).map(|w| w[c as usize].clone()));
        match want {
            None => R::Bad(format!("client {c} comes from a commit {tag} that nobody made")),
            Some(w) if w != got => R::Bad(format!("client {c} comes from commit {tag}, which wrote {w:?}, but holds {got:?}")),
            Some(_) => {
                self.has[c as usize] = got;
                R::Tag(tag)
            }
        }
    }
    fn exec(&mut self, h: &Hist<R>, t: usize, j: usize, o: &Op) {
        let path = self.path;
        let plain = |r: Result<(), String>| match r {
            Ok(()) => R::Ok,
            Err(e) => R::Bad(e),
        };
        match o.k.as_str() {
            "kill" => {
                let (me, n) = (sched::me(), o.n(0) as u64);
                sched::inert(|| vfs::v().kill.push((me, n)));
            }
            "put" => {
                h.run(t, j, o, || plain(self.put(o.n(0), o.n(1), o.n(2))));
            }
            "del" => {
                h.run(t, j, o, || {
                    let old = self.has[o.n(0) as usize].remove(&(0, o.n(1)));
                    plain(self.must(op("sdel", &[o.n(0), o.n(1)]), old.map(Res::Val).unwrap_or(Res::None)))
                });
            }
            "sec" => {
                h.run(t, j, o, || {
                    self.has[o.n(0) as usize].insert((1, o.n(1) * 10 + o.n(2)), o.n(3));
                    plain(self.must(op("write", &o.a), Res::Ok))
                });
            }
            "commit" => {
                let tag = o.n(0);
                let r = self.put(0, TAG, tag).and_then(|_| self.put(1, TAG, tag));
                let has = self.has.clone();
                self.written.with(|w| w.insert(tag, has));
                h.run(t, j, o, || match r {
                    Err(e) => R::Bad(e),
                    Ok(()) => match self.se.exec(&op("commit", &[path, 7])) {
                        Res::Ok => R::Ok,
                        r => R::Err(format!("{r:?}")),
                    },
                });
            }
            // everything that the file holds, in a fresh instance that takes this one's place
            "join" => {
                let mut n = Instance::fresh(path, &self.written);
                let r = h.run(t, j, o, || {
                    match n.se.exec(&op("loads", &[path, 7])) {
                        Res::Ok => {}
                        r => return R::Err(format!("{r:?}")),
                    }
                    let mut tags = vec![];
                    for c in 0..2 {
                        match n.se.exec(&op("load", &[c])) {
                            Res::Ok => {}
                            r => return R::Bad(format!("client {c} cannot be loaded: {r:?}")),
                        }
                        match n.look(c) {
                            R::Tag(t) => tags.push(t),
                            r => return r,
                        }
                    }
                    if tags[0] != tags[1] {
                        return R::Bad(format!("client 0 comes from commit {}, client 1 from commit {}", tags[0], tags[1]));
                    }
                    R::Tag(tags[0])
                });
                if let R::Tag(_) = r {
                    *self = n;
                }
            }
            // the clients one by one
            "joinf" => {
                let mut n = Instance::fresh(path, &self.written);
                let mut all = true;
                for c in 0..2 {
                    let one = op("joinf", &[c]);
                    let r = h.run(t, j, &one, || match n.se.exec(&op("loadf", &[c, path, 7])) {
                        Res::Ok => n.look(c),
                        r => R::Err(format!("{r:?}")),
                    });
                    all &= matches!(r, R::Tag(_));
                }
                if all {
                    *self = n;
                }
            }
            _ => {}
        }
    }
}

#[derive(Clone)]
enum Step {
    Commit(i64, bool),
    Load(i64),
}
/// What the file holds: the tag of a commit, or nothing (-1).
struct FileModel;
impl lin::Model for FileModel {
    type S = i64;
    type O = Step;
    fn step(&self, s: &i64, o: &Step) -> Vec<i64> {
        match o {
            Step::Commit(t, true) => vec![*t],
            // it failed or was cut short: before or after it took effect
            Step::Commit(t, false) => vec![*s, *t],
            Step::Load(t) => {
                if s == t {
                    vec![*s]
                } else {
                    vec![]
                }
            }
        }
    }
}

pub struct SharedFile;
impl Scenario for SharedFile {
    fn property(&self) -> &'static str {
        "C17"
    }
    fn name(&self) -> &'static str {
        "shared-file"
    }
    fn quick_runs(&self) -> u64 {
        5000
    }
    fn real(&self) -> &'static str {
        "client, engine and runtime with their snapshot code as compiled from /repo; the disk is simulated (page cache, durable state, torn and lost writes), every instance is a task that stands for a thread or a program of its own"
    }
    fn rule(&self) -> &'static str {
        "2-4 instances change their data, commit all of it to one file and load it from there; some are killed right before one of their I/O calls while the others go on, some I/O calls fail, and sometimes the power fails at a random call or step; every load must give exactly what one commit wrote, in an order that respects real time, nobody's commit or load fails because of others, and what survives is no older than the last commit that was acknowledged"
    }
    fn gen(&self, r: &mut Rng, _k: u64, thorough: bool) -> Plan {
        let mut p = Plan::new("C17", "shared-file", r.next() >> 1);
        p.cfg.insert("path".into(), *r.pick(&[0, 0, 3, 5, 6]));
        p.cfg.insert("latency".into(), if r.chance(1, 4) { 20_000 } else { 0 });
        let mut x = 20;
        let mut tag = 0;
        let change = |r: &mut Rng, x: &mut i64| {
            *x = (*x + 1) % NVAL;
            let c = r.below(2) as i64;
            match r.below(5) {
                0 | 1 => op("put", &[c, r.below(NK as u64) as i64, *x]),
                2 => op("del", &[c, r.below(NK as u64) as i64]),
                _ => op("sec", &[c, r.below(NV as u64) as i64, r.below(NR as u64) as i64, *x]),
            }
        };
        let mut commit = || {
            tag += 1;
            op("commit", &[tag])
        };
        if r.chance(2, 3) {
            for _ in 0..r.below(4) {
                p.setup.push(change(r, &mut x));
            }
            p.setup.push(commit());
        }
        let nt = 2 + r.below(3);
        for _ in 0..nt {
            let mut v = vec![];
            let n = 1 + r.below(if nt == 2 { 5 } else { 4 + 2 * thorough as u64 });
            for _ in 0..n {
                match r.below(8) {
                    0 => v.push(change(r, &mut x)),
                    1..=3 => {
                        if r.chance(2, 3) {
                            v.push(change(r, &mut x));
                        }
                        v.push(commit());
                    }
                    4 | 5 => v.push(op("join", &[])),
                    _ => v.push(op("joinf", &[])),
                }
            }
            if r.chance(1, 4) {
                v.insert(r.below(v.len() as u64) as usize, op("kill", &[r.below(16) as i64]));
            }
            p.threads.push(v);
        }
        if r.chance(1, 4) {
            let power = r.chance(2, 3);
            p.crash = Some(if r.chance(3, 4) {
                Crash { at_io: r.below(60) as i64, at_step: 0, power, seed: r.next() >> 1 }
            } else {
                Crash { at_io: -1, at_step: 1 + r.below(8000) as i64, power, seed: r.next() >> 1 }
            });
        }
        if r.chance(1, 6) {
            p.faults.push(gen_disk_fault(r));
        }
        p.sched = gen_sched(r, 3000);
        p
    }
    fn run(&self, cx: &mut Cx) {
        let plan = cx.plan;
        let path = plan.c("path");
        let hist: Hist<R> = Hist::new();
        let written: Written = Sh::new(BTreeMap::new());
        let (h, w, setup) = (hist.clone(), written.clone(), plan.setup.clone());
        let first = cx.solo("setup", move || {
            let mut i = Instance::fresh(path, &w);
            let r = i.make();
            for (j, o) in setup.iter().enumerate() {
                i.exec(&h, 0, j, o);
            }
            r
        });
        match first {
            Some(Ok(())) => {}
            Some(Err(e)) => return cx.violate("bad-start", e),
            None => return,
        }
        let tasks: Vec<(String, TaskFn)> = plan
            .threads
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let (h, w, ops) = (hist.clone(), written.clone(), ops.clone());
                let f: TaskFn = Box::new(move || {
                    let mut s = Instance::fresh(path, &w);
                    if let Err(e) = s.make() {
                        h.run(1 + i, 0, &op("create", &[]), || R::Bad(e));
                    }
                    for (j, o) in ops.iter().enumerate() {
                        s.exec(&h, 1 + i, j, o);
                    }
                });
                (format!("instance{}", 1 + i), f)
            })
            .collect();
        sched::activate(true);
        cx.arm();
        let e = cx.phase(tasks);
        cx.disarm();
        sched::activate(false);
        let killed = sched::inert(|| {
            vfs::v().kill.clear();
            vfs::v().fired.get("kill:one").copied().unwrap_or(0)
        });
        cx.sample = hist.lines();
        if !cx.ok() {
            return;
        }
        if plan.crash.is_some() {
            cx.crash_disk();
            cx.count(if e == PhaseEnd::Crashed { "all_died_midway" } else { "all_died_at_the_end" });
        } else {
            vfs::v().crash_kill();
        }
        vfs::v().sync_everything();
        let before = hist.all().len();
        if readable(cx, path, "at the end").is_none() {
            return;
        }
        let (h, w) = (hist.clone(), written.clone());
        let fin = cx.solo("final", move || {
            let mut i = Instance::fresh(path, &w);
            i.exec(&h, 0, 900, &op("join", &[]));
            i.exec(&h, 0, 901, &op("joinf", &[]));
        });
        cx.sample = hist.lines();
        if fin.is_none() {
            return;
        }
        let faulty = !plan.faults.is_empty();
        let all = hist.all();
        let mut th: Vec<Vec<lin::Entry<Step>>> = vec![vec![]; plan.threads.len() + 1];
        let mut hard = th.clone();
        let power = plan.crash.as_ref().map(|c| c.power).unwrap_or(false);
        let (mut commits, mut loads) = (0, 0);
        for (pos, e) in all.iter().enumerate() {
            let label = format!("{} = {:?}", e.op.s(), e.res);
            if let Some(R::Bad(b)) = &e.res {
                return cx.violate("not-one-commit", format!("instance {}: {}: {b}", e.task, e.op.s()));
            }
            let step = match (e.op.k.as_str(), &e.res) {
                ("commit", r) => {
                    if let (Some(R::Err(m)), false) = (r, faulty) {
                        return cx.violate("commit-failed", format!("instance {}: {label}: no call to the system failed ({m})", e.task));
                    }
                    commits += matches!(r, Some(R::Ok)) as u64;
                    Step::Commit(e.op.n(0), matches!(r, Some(R::Ok)))
                }
                (_, Some(R::Tag(t))) => {
                    loads += 1;
                    Step::Load(*t)
                }
                // nothing to load, unless something failed
                ("join" | "joinf", Some(R::Err(_))) if !faulty || pos >= before => Step::Load(-1),
                _ => continue,
            };
            let pending = e.res.is_none();
            let en = lin::Entry { inv: e.inv, ret: e.ret, subs: vec![step.clone()], pending, label };
            // what a power failure took need not have been durable when somebody saw it
            if !power || pos < before {
                th[e.task].push(en.clone());
            }
            if pos >= before || matches!(step, Step::Commit(..)) {
                hard[e.task].push(en);
            }
        }
        cx.add("commits", commits);
        cx.add("loads", loads);
        cx.add("killed_instances", killed);
        if commits > 1 && loads > 1 {
            cx.count("nontrivial");
        }
        for (t, what) in [(&th, "not-the-last"), (&hard, "not-durable")] {
            match lin::check(&FileModel, &[-1], t, 400_000) {
                lin::Verdict::Ok(n) => cx.add("lin_nodes", n),
                lin::Verdict::Unknown => cx.count("lin_unknown"),
                lin::Verdict::Bad(d) => {
                    return cx.violate(what, format!("no order of the commits explains what was loaded: {d}"));
                }
            }
        }
        // nobody was stopped and nothing failed: nothing is left but the file
        if killed == 0 && !faulty && plan.crash.is_none() {
            litter(cx, path, "at the end");
        }
    }
}
