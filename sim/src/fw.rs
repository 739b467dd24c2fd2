//! The search framework: plans, one forked process per simulated run, violation reports,
//! minimisation, replay files and evidence.
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::sched::{PhaseEnd, Strategy};
use simrt::{alloc, interpose, mem, raw, sched, shm, tsan, vfs, Rng, Sh};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub k: String,
    #[serde(default)]
    pub a: Vec<i64>,
}
pub fn op(k: &str, a: &[i64]) -> Op {
    Op { k: k.to_string(), a: a.to_vec() }
}
impl Op {
    pub fn n(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
    pub fn s(&self) -> String {
        let a: Vec<String> = self.a.iter().map(|x| x.to_string()).collect();
        format!("{}({})", self.k, a.join(","))
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FaultSpec {
    pub cls: String,
    pub nth: u64,
    pub err: String,
    #[serde(default)]
    pub count: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Crash {
    /// Crash right before this I/O call (counted from the arming of the crash).
    pub at_io: i64,
    /// ... or, if at_io is negative, this many scheduling points after arming.
    pub at_step: i64,
    /// Power failure (only durable state survives) or kill (page cache survives).
    pub power: bool,
    pub seed: u64,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "k")]
pub enum SchedSpec {
    Seq,
    Rand { seed: u64, mean: u64 },
    Pct { seed: u64, d: u64, len: u64 },
    Explicit { sw: Vec<(u64, usize)> },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    #[serde(default)]
    pub cfg: BTreeMap<String, i64>,
    /// Operations run one after the other before the concurrent part.
    #[serde(default)]
    pub setup: Vec<Op>,
    /// One list of operations per task.
    #[serde(default)]
    pub threads: Vec<Vec<Op>>,
    #[serde(default)]
    pub faults: Vec<FaultSpec>,
    #[serde(default)]
    pub crash: Option<Crash>,
    pub sched: SchedSpec,
    #[serde(default)]
    pub mem_points: bool,
}
/// See `w::style`.
pub static mut STYLE: i64 = 0;
/// A third of the runs use unusual names or sizes.
pub fn styled(mut p: Plan) -> Plan {
    let h = simrt::rng::mix(p.seed ^ 0x57f1e);
    // (elsewhere the secrets are keys or are searched for)
    let sized = ["C01", "C02", "C05", "C08", "C10", "C14", "C21"].contains(&p.property.as_str());
    if h % 3 == 0 && !p.cfg.contains_key("style") {
        p.cfg.insert("style".into(), ((h >> 8) % 4 + if (h >> 16) % 4 == 0 { 4 } else { 0 } + if (h >> 20) % 4 == 0 && sized { 8 } else { 0 } + if (h >> 24) % 3 == 0 && p.property == "C13" { 16 } else { 0 }) as i64);
    }
    p
}
impl Plan {
    pub fn new(property: &str, scenario: &str, seed: u64) -> Plan {
        Plan {
            property: property.into(),
            scenario: scenario.into(),
            seed,
            cfg: BTreeMap::new(),
            setup: vec![],
            threads: vec![],
            faults: vec![],
            crash: None,
            sched: SchedSpec::Seq,
            mem_points: false,
        }
    }
    pub fn c(&self, k: &str) -> i64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn ops(&self) -> usize {
        self.setup.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
}

/// What a scenario sees while a run executes (in the run's own process).
pub struct Cx<'a> {
    pub plan: &'a Plan,
    pub viol: Option<(String, String)>,
    pub counts: BTreeMap<String, u64>,
    pub sample: Vec<String>,
    pub ends: Vec<String>,
    pub max_steps_hit: bool,
}
pub type TaskFn = Box<dyn FnOnce()>;
impl<'a> Cx<'a> {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn violate(&mut self, sig: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some((sig.to_string(), msg));
        }
    }
    pub fn ok(&self) -> bool {
        self.viol.is_none()
    }
    /// Runs tasks; a panic, deadlock or lack of progress is a violation.
    pub fn phase(&mut self, tasks: Vec<(String, TaskFn)>) -> PhaseEnd {
        let e = self.phase_raw(tasks);
        self.judge(e)
    }
    /// Makes a violation of the end of a phase.
    pub fn judge(&mut self, e: PhaseEnd) -> PhaseEnd {
        match e {
            PhaseEnd::Panic => {
                let m = sched::s().panic_msg.clone();
                let note = sched::s().panic_note.clone();
                self.violate(&panic_sig(&m), format!("the program panicked (with the shipped profile: aborts) in {note}: {m}"));
            }
            PhaseEnd::Deadlock => {
                let b = sched::blocked_summary();
                self.violate("deadlock", format!("deadlock: {b}"));
            }
            PhaseEnd::StepLimit => {
                let b = sched::blocked_summary();
                self.violate("no-progress", format!("no progress within {} steps: {b}", sched::s().max_steps));
            }
            PhaseEnd::Stopped => {
                let m = sched::s().stop_msg.clone();
                let (s, m) = m.split_once('|').map(|(a, b)| (a.to_string(), b.to_string())).unwrap_or(("invariant".into(), m));
                self.violate(&s, m);
            }
            _ => {}
        }
        e
    }
    pub fn phase_raw(&mut self, tasks: Vec<(String, TaskFn)>) -> PhaseEnd {
        let e = sched::run_phase(tasks);
        self.ends.push(format!("{:?}", e));
        e
    }
    /// Runs one closure as the only task and returns its result (None: it did not finish).
    pub fn solo<T: 'static>(&mut self, name: &str, f: impl FnOnce() -> T + 'static) -> Option<T> {
        let out: Sh<Option<T>> = Sh::new(None);
        let o2 = out.clone();
        self.phase(vec![(
            name.to_string(),
            Box::new(move || {
                let r = f();
                o2.with(|o| *o = Some(r));
            }),
        )]);
        out.with(|o| o.take())
    }
    /// Arms the plan's faults and crash point.
    pub fn arm(&mut self) {
        let v = vfs::v();
        v.armed = true;
        v.counts.clear();
        v.faults = self
            .plan
            .faults
            .iter()
            .map(|f| vfs::Fault { cls: f.cls.clone(), nth: f.nth, err: f.err.clone(), count: f.count })
            .collect();
        if let Some(c) = &self.plan.crash {
            if c.at_io >= 0 {
                v.crash_at_io = v.io_index + c.at_io as u64;
            } else {
                sched::s().crash_step = sched::s().step + c.at_step.max(1) as u64;
            }
        }
    }
    pub fn disarm(&mut self) {
        let v = vfs::v();
        v.armed = false;
        v.faults.clear();
        v.quota = None;
        v.crash_at_io = u64::MAX;
        sched::s().crash_step = u64::MAX;
    }
    /// The effects of the plan's crash on the disk.
    pub fn crash_disk(&mut self) {
        let c = self.plan.crash.clone().unwrap_or(Crash { at_io: 0, at_step: 0, power: false, seed: 0 });
        if c.power {
            let mut r = Rng::new(c.seed);
            vfs::v().crash_power(&mut r);
            vfs::v().bump("crash:power");
        } else {
            vfs::v().crash_kill();
            vfs::v().bump("crash:kill");
        }
    }
}
fn panic_sig(m: &str) -> String {
    // location|message -> file and message without numbers
    let (loc, msg) = m.split_once('|').unwrap_or(("?", m));
    let file = loc.split(':').next().unwrap_or("?");
    let file = file.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
    let msg: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
    format!("panic:{file}:{}", msg.trim())
}

/// Operation histories, recorded by tasks with the global step counter as the clock.
#[derive(Clone, Debug)]
pub struct HEnt<R> {
    pub task: usize,
    pub idx: usize,
    pub op: Op,
    pub inv: u64,
    pub ret: u64,
    pub res: Option<R>,
}
pub struct Hist<R>(pub Sh<(u64, Vec<HEnt<R>>)>);
impl<R> Clone for Hist<R> {
    fn clone(&self) -> Self {
        Hist(self.0.clone())
    }
}
impl<R: Clone + std::fmt::Debug> Hist<R> {
    pub fn new() -> Hist<R> {
        Hist(Sh::new((0, vec![])))
    }
    pub fn run(&self, task: usize, idx: usize, op: &Op, f: impl FnOnce() -> R) -> R {
        let pos = self.0.with(|(seq, v)| {
            *seq += 1;
            shm::note(sched::me().min(40), &format!("task {task} op {idx} {}", op.s()));
            v.push(HEnt { task, idx, op: op.clone(), inv: *seq, ret: u64::MAX, res: None });
            v.len() - 1
        });
        let me = sched::me();
        if me != sched::NONE {
            sched::s().tasks[me].waiting_op = self.0.with(|_| Box::leak(op.s().into_boxed_str()));
        }
        sched::event(|| format!("call {}", op.s()));
        let r = f();
        let r2 = r.clone();
        sched::event(|| format!("ret  {} = {:?}", op.s(), r2));
        self.0.with(|(seq, v)| {
            *seq += 1;
            v[pos].ret = *seq;
            v[pos].res = Some(r2);
        });
        r
    }
    pub fn all(&self) -> Vec<HEnt<R>> {
        self.0.with(|(_, v)| v.clone())
    }
    pub fn lines(&self) -> Vec<String> {
        self.all()
            .iter()
            .filter(|h| !h.res.as_ref().map(|r| format!("{r:?}") == "Skip").unwrap_or(false))
            .map(|h| {
                let ret = if h.ret == u64::MAX { "-".into() } else { h.ret.to_string() };
                format!("t{} [{}..{}] {} = {:?}", h.task, h.inv, ret, h.op.s(), h.res)
            })
            .collect()
    }
}

pub trait Scenario: Sync {
    /// The property this scenario decides.
    fn property(&self) -> &'static str;
    fn name(&self) -> &'static str;
    /// Runs of a quick check.
    fn quick_runs(&self) -> u64;
    fn gen(&self, r: &mut Rng, k: u64, thorough: bool) -> Plan;
    fn run(&self, cx: &mut Cx);
    fn real(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    /// Scheduling steps after which a phase counts as stuck.
    fn max_steps(&self) -> u64 {
        3_000_000
    }
    /// Plans that are always run (known findings' reproducers and boundary cases).
    fn directed(&self) -> Vec<Plan> {
        vec![]
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub sig: Option<String>,
    pub msg: String,
    pub harness_error: Option<String>,
    pub steps: u64,
    pub switches: u64,
    pub preempt: u64,
    pub sim_ns: u64,
    pub counts: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub sample: Vec<String>,
    pub events: Vec<String>,
    pub log: Vec<(u64, usize)>,
    pub ends: Vec<String>,
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if sched::in_task() && sched::installed() {
            let sc = sched::s();
            let harness = loc.starts_with("src/") || loc.starts_with("simrt/");
            sc.panic_msg = format!("{}{loc}|{msg}", if harness { "HARNESS " } else { "" });
            let me = sched::me();
            sc.panic_note = format!("{} during {}", sc.tasks[me].name, sc.tasks[me].waiting_op);
            sched::finish(PhaseEnd::Panic);
        }
        if sched::installed() && loc.contains("/repo/") {
            let sc = sched::s();
            sc.panic_msg = format!("{loc}|{msg}");
            sc.panic_note = "teardown".into();
        } else {
            raw_err(&format!("harness panic: {loc}: {msg}\n"));
        }
    }));
}
fn raw_err(s: &str) {
    unsafe { raw::write_all(2, s.as_bytes()) }
}

/// The body of a run, in the forked child.
fn child(sc: &dyn Scenario, plan: &Plan, trace: bool) -> ! {
    install_panic_hook();
    alloc::after_fork();
    unsafe {
        // 40 s of CPU time: a run stuck in uninstrumented code
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: 40, tv_usec: 0 },
        };
        raw::sys3(libc::SYS_setitimer, libc::ITIMER_PROF as i64, &it as *const _ as i64, 0);
    }
    let strat = match &plan.sched {
        SchedSpec::Seq => Strategy::Seq,
        SchedSpec::Rand { seed, mean } => Strategy::Rand { seed: *seed, mean: *mean },
        SchedSpec::Pct { seed, d, len } => Strategy::Pct { seed: *seed, d: *d, len: *len },
        SchedSpec::Explicit { sw } => Strategy::Explicit(sw.clone()),
    };
    // what the strategy allocates must not shift the addresses the run sees
    sched::init(strat, plan.seed, sc.max_steps());
    alloc::enter_run();
    interpose::seed_random(plan.seed);
    sched::s().trace = trace;
    if plan.c("spurious") > 0 {
        sched::s().spurious = plan.c("spurious") as u64;
    }
    unsafe { STYLE = plan.c("style") };
    vfs::init(plan.seed);
    vfs::v().latency = plan.c("latency") as u64;
    vfs::v().mkdir_all("/simfs/home");
    vfs::v().mkdir_all("/simfs/cwd");
    vfs::v().mkdir_all("/simfs/data");
    mem::init();
    tsan::reset(plan.mem_points);
    let mut cx = Cx {
        plan,
        viol: None,
        counts: BTreeMap::new(),
        sample: vec![],
        ends: vec![],
        max_steps_hit: false,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sc.run(&mut cx)));
    let s = sched::s();
    let mut herr = Value::Null;
    if r.is_err() {
        if s.panic_note == "teardown" {
            if cx.viol.is_none() {
                cx.violate(&panic_sig(&s.panic_msg), format!("the program panicked while its objects were dropped: {}", s.panic_msg));
            }
        } else {
            herr = json!("panic in the harness");
        }
    }
    if s.panic_msg.starts_with("HARNESS") {
        herr = json!(s.panic_msg.clone());
    }
    let (atom, memp) = unsafe { (tsan::ATOMIC_POINTS, tsan::MEM_POINTS) };
    cx.add("points:atomic", atom);
    cx.add("points:memory", memp);
    cx.add("futex_waits", s.futex_waits);
    let mut faults = vfs::v().fired.clone();
    if s.spurious_fired > 0 {
        faults.insert("spurious_wakeup".into(), s.spurious_fired);
    }
    let m = mem::m();
    for (k, n) in [("mlock_fail", m.mlock_failed), ("mmap_fail", m.mmap_failed), ("mprotect_fail", m.mprotect_failed)] {
        if n > 0 {
            faults.insert(k.into(), n);
        }
    }
    let mut h = s.hash;
    sched::fnv(&mut h, s.sched_hash);
    sched::fnv(&mut h, s.step);
    for l in &cx.sample {
        sched::fnv_str(&mut h, l);
    }
    if let Some((a, b)) = &cx.viol {
        sched::fnv_str(&mut h, a);
        sched::fnv_str(&mut h, b);
    }
    let v = json!({
        "sig": cx.viol.as_ref().map(|v| v.0.clone()),
        "msg": cx.viol.as_ref().map(|v| v.1.clone()).unwrap_or_default(),
        "herr": herr,
        "steps": s.step, "switches": s.switches, "preempt": s.preemptions,
        "sim_ns": s.clock - 1_000_000_000_000u64,
        "counts": cx.counts, "faults": faults,
        "hash": format!("{:016x}", h), "sched_hash": format!("{:016x}", s.sched_hash),
        "sample": cx.sample.iter().take(60).collect::<Vec<_>>(),
        "events": s.events, "ends": cx.ends, "overflow": s.log_overflow,
    });
    shm::put_result(serde_json::to_string(&v).unwrap().as_bytes());
    unsafe {
        raw::sys3(libc::SYS_exit_group, 0, 0, 0);
    }
    loop {}
}

pub struct Pool {
    slots: Vec<usize>,
}
fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(cpu, &mut set);
        libc::sched_setaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}
fn parse(b: usize, status: i32) -> Outcome {
    let mut o = Outcome { log: shm::read_log(b), ..Default::default() };
    let notes = shm::notes(b).join("; ");
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        if s == libc::SIGPROF {
            o.sig = Some("hang".into());
            o.msg = format!("the run used 40 s of CPU without ending; last operations: {notes}");
        } else if s == libc::SIGKILL {
            o.harness_error = Some("killed".into());
        } else {
            let name = match s {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGABRT => "SIGABRT",
                libc::SIGBUS => "SIGBUS",
                libc::SIGILL => "SIGILL",
                _ => "signal",
            };
            o.sig = Some(format!("died:{name}"));
            o.msg = format!("the process died with {name}; last operations: {notes}");
        }
        return o;
    }
    let r = match shm::result(b) {
        Some(r) => r,
        None => {
            o.harness_error = Some(format!("no result, status {status:x}; {notes}"));
            return o;
        }
    };
    let v: Value = match serde_json::from_slice(&r) {
        Ok(v) => v,
        Err(e) => {
            o.harness_error = Some(format!("bad result: {e}"));
            return o;
        }
    };
    let m = |k: &str| -> BTreeMap<String, u64> { serde_json::from_value(v[k].clone()).unwrap_or_default() };
    let sv = |k: &str| -> Vec<String> { serde_json::from_value(v[k].clone()).unwrap_or_default() };
    o.sig = v["sig"].as_str().map(|s| s.to_string());
    o.msg = v["msg"].as_str().unwrap_or("").to_string();
    o.harness_error = v["herr"].as_str().map(|s| s.to_string());
    o.steps = v["steps"].as_u64().unwrap_or(0);
    o.switches = v["switches"].as_u64().unwrap_or(0);
    o.preempt = v["preempt"].as_u64().unwrap_or(0);
    o.sim_ns = v["sim_ns"].as_u64().unwrap_or(0);
    o.counts = m("counts");
    o.faults = m("faults");
    o.hash = u64::from_str_radix(v["hash"].as_str().unwrap_or("0"), 16).unwrap_or(0);
    o.sched_hash = u64::from_str_radix(v["sched_hash"].as_str().unwrap_or("0"), 16).unwrap_or(0);
    o.sample = sv("sample");
    o.events = sv("events");
    o.ends = sv("ends");
    o
}
impl Pool {
    pub fn new() -> Pool {
        let n = std::env::var("SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        Pool { slots: (0..n).map(|_| shm::create()).collect() }
    }
    /// Runs the plans produced by `next` (until None), several at a time; `done` gets the
    /// outcomes in completion order and returns false to stop producing more.
    pub fn run(
        &self,
        sc: &dyn Scenario,
        trace: bool,
        next: &mut dyn FnMut() -> Option<(u64, Plan)>,
        done: &mut dyn FnMut(u64, Plan, Outcome) -> bool,
    ) {
        let mut busy: Vec<Option<(i32, u64, Plan)>> = self.slots.iter().map(|_| None).collect();
        let mut stop = false;
        loop {
            for (i, b) in busy.iter_mut().enumerate() {
                if b.is_none() && !stop {
                    match next() {
                        None => stop = true,
                        Some((k, p)) => {
                            shm::use_base(self.slots[i]);
                            let pid = unsafe { libc::fork() };
                            if pid == 0 {
                                pin_to(i);
                                child(sc, &p, trace);
                            }
                            assert!(pid > 0, "fork failed");
                            *b = Some((pid, k, p));
                        }
                    }
                }
            }
            if busy.iter().all(|b| b.is_none()) {
                return;
            }
            let mut st = 0;
            let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
            if let Some(i) = busy.iter().position(|b| b.as_ref().map(|x| x.0) == Some(pid)) {
                let (_, k, p) = busy[i].take().unwrap();
                let o = parse(self.slots[i], st);
                if !done(k, p, o) {
                    stop = true;
                }
            }
        }
    }
    pub fn one(&self, sc: &dyn Scenario, plan: &Plan, trace: bool) -> Outcome {
        let mut out = None;
        let mut p = Some(plan.clone());
        self.run(sc, trace, &mut || p.take().map(|p| (0, p)), &mut |_, _, o| {
            out = Some(o);
            true
        });
        out.unwrap()
    }
    /// The first of the plans (in order) whose outcome has the signature.
    fn first(&self, sc: &dyn Scenario, plans: Vec<Plan>, sig: &str) -> Option<(Plan, Outcome)> {
        let mut it = plans.into_iter().enumerate();
        let mut best: Option<(u64, Plan, Outcome)> = None;
        self.run(
            sc,
            false,
            &mut || it.next().map(|(i, p)| (i as u64, p)),
            &mut |k, p, o| {
                if o.sig.as_deref() == Some(sig) && best.as_ref().map(|b| b.0 > k).unwrap_or(true) {
                    best = Some((k, p, o));
                }
                best.is_none()
            },
        );
        best.map(|(_, p, o)| (p, o))
    }
}
fn pin_to(i: usize) {
    static CPUS: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let cpus = CPUS.get_or_init(|| unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        libc::sched_getaffinity(0, core::mem::size_of::<libc::cpu_set_t>(), &mut set);
        (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect()
    });
    if !cpus.is_empty() {
        pin(cpus[i % cpus.len()]);
    }
}

fn resched(p: &Plan, k: u64) -> Plan {
    let mut q = p.clone();
    if k == 0 {
        return q;
    }
    match &mut q.sched {
        SchedSpec::Rand { seed, mean } => {
            *seed = simrt::rng::mix(*seed ^ k);
            if k % 3 == 0 {
                *mean = (*mean * 2).min(2000);
            }
        }
        SchedSpec::Pct { seed, len, .. } => {
            *seed = simrt::rng::mix(*seed ^ k);
            if k % 2 == 0 {
                *len = (*len * 2 / 3).max(20);
            }
        }
        _ => {}
    }
    q
}

/// Shrinks a failing plan while the violation keeps its signature.
pub fn minimise(pool: &Pool, sc: &dyn Scenario, plan: &Plan, out: &Outcome, budget_s: u64) -> (Plan, Outcome) {
    let t0 = raw::now_ns();
    let left = || (raw::now_ns() - t0) / 1_000_000_000 < budget_s;
    let sig = out.sig.clone().unwrap();
    let mut best = plan.clone();
    let mut bo = out.clone();
    let seq = plan.sched == SchedSpec::Seq || matches!(plan.sched, SchedSpec::Explicit { .. });
    let tries = if seq { 1 } else { 24 };
    let attempt = |cands: Vec<Plan>| -> Option<(Plan, Outcome)> {
        for c in cands {
            if !left() {
                return None;
            }
            if let Some(r) = pool.first(sc, (0..tries).map(|k| resched(&c, k)).collect(), &sig) {
                return Some(r);
            }
        }
        None
    };
    let mut progress = true;
    while progress && left() {
        progress = false;
        // no crash, no faults
        if best.crash.is_some() {
            let mut c = best.clone();
            c.crash = None;
            if let Some((p, o)) = attempt(vec![c]) {
                best = p;
                bo = o;
                progress = true;
            }
        }
        let mut i = 0;
        while i < best.faults.len() && left() {
            let mut c = best.clone();
            c.faults.remove(i);
            if let Some((p, o)) = attempt(vec![c]) {
                best = p;
                bo = o;
                progress = true;
            } else {
                i += 1;
            }
        }
        // whole threads
        let mut i = 0;
        while i < best.threads.len() && left() {
            if !best.threads[i].is_empty() {
                let mut c = best.clone();
                c.threads[i].clear();
                if let Some((p, o)) = attempt(vec![c]) {
                    best = p;
                    bo = o;
                    progress = true;
                }
            }
            i += 1;
        }
        // chunks of operations
        for t in 0..=best.threads.len() {
            let get = |p: &Plan| if t == 0 { p.setup.clone() } else { p.threads[t - 1].clone() };
            let mut n = get(&best).len().div_ceil(2).max(1);
            while left() {
                let mut i = 0;
                while i < get(&best).len() && left() {
                    let mut c = best.clone();
                    {
                        let l = if t == 0 { &mut c.setup } else { &mut c.threads[t - 1] };
                        let e = (i + n).min(l.len());
                        l.drain(i..e);
                    }
                    if let Some((p, o)) = attempt(vec![c]) {
                        best = p;
                        bo = o;
                        progress = true;
                    } else {
                        i += n;
                    }
                }
                if n == 1 {
                    break;
                }
                n /= 2;
            }
        }
        // knobs to their defaults
        let keys: Vec<String> = best.cfg.iter().filter(|(_, v)| **v != 0).map(|(k, _)| k.clone()).collect();
        for k in keys {
            if !left() || !["latency", "spurious", "quota", "clockjump"].contains(&k.as_str()) {
                continue;
            }
            let mut c = best.clone();
            c.cfg.insert(k, 0);
            if let Some((p, o)) = attempt(vec![c]) {
                best = p;
                bo = o;
                progress = true;
            }
        }
    }
    // the schedule: from the recorded decisions remove those that are not needed
    if !seq {
        let mut c = best.clone();
        c.sched = SchedSpec::Explicit { sw: bo.log.clone() };
        let o = pool.one(sc, &c, false);
        if o.sig.as_deref() == Some(&sig) {
            best = c;
            bo = o;
            let mut n = bo.log.len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                loop {
                    let sw = if let SchedSpec::Explicit { sw } = &best.sched { sw.clone() } else { vec![] };
                    if i >= sw.len() || !left() {
                        break;
                    }
                    let mut s2 = sw.clone();
                    s2.drain(i..(i + n).min(sw.len()));
                    let mut c = best.clone();
                    c.sched = SchedSpec::Explicit { sw: s2 };
                    if let Some((p, o)) = pool.first(sc, vec![c], &sig) {
                        best = p;
                        bo = o;
                    } else {
                        i += n;
                    }
                }
                if n == 1 || !left() {
                    break;
                }
                n /= 2;
            }
        }
    }
    best.threads.iter_mut().for_each(|_| {});
    (best, bo)
}

#[derive(Deserialize)]
struct Known {
    property: String,
    #[serde(default)]
    sig: String,
    #[serde(default)]
    what: String,
    #[serde(default)]
    status: String,
}
fn known(property: &str) -> Vec<(String, String)> {
    let p = root().join("known-findings.json");
    let t = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: Vec<Known> = match serde_json::from_str::<Value>(&t) {
        Ok(v) => serde_json::from_value(v["findings"].clone()).unwrap_or_default(),
        Err(e) => {
            eprintln!("known-findings.json: {e}");
            std::process::exit(2)
        }
    };
    v.into_iter().filter(|k| k.property == property && k.status == "open").map(|k| (k.sig, k.what)).collect()
}
pub fn root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()).into()
}
fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok().and_then(|s| s.parse().ok())
}

/// Runs the check of a property; returns the exit code.
pub fn check(property: &str, scs: &[&dyn Scenario], thorough: bool) -> i32 {
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let t0 = raw::now_ns();
    let pool = Pool::new();
    let kn = known(property);
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut viol: Option<(u64, Plan, Outcome, usize)> = None;
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut scheds: BTreeSet<u64> = BTreeSet::new();
    let mut runs = 0u64;
    let mut sim_ns = 0u64;
    let mut steps = 0u64;
    let mut switches = 0u64;
    let mut preempt = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut per_sc: BTreeMap<String, Value> = BTreeMap::new();
    let mut harness: Option<String> = None;
    let cap = env_u64("SIM_CAP").unwrap_or(if thorough { 1500 } else { 150 });
    let mult = env_u64("SIM_MULT").unwrap_or(if thorough { 20 } else { 1 });
    let share = cap / scs.len() as u64;
    println!("check {property} seed {seed} tier {}", if thorough { "thorough" } else { "quick" });
    for (si, sc) in scs.iter().enumerate() {
        if viol.is_some() || harness.is_some() {
            break;
        }
        let ts = raw::now_ns();
        let n = sc.quick_runs() * mult;
        let directed = sc.directed();
        let mut k = 0u64;
        let (mut r0, mut nontriv) = (0u64, 0u64);
        let nd = directed.len() as u64;
        let mut next = || {
            if k >= n + nd || (raw::now_ns() - ts) / 1_000_000_000 >= share {
                return None;
            }
            let i = k;
            k += 1;
            if i < nd {
                return Some((i, directed[i as usize].clone()));
            }
            let mut r = Rng::new(simrt::rng::mix(seed).wrapping_add(simrt::rng::mix(i.wrapping_mul(7919) ^ (si as u64) << 40)));
            Some((i, styled(sc.gen(&mut r, i, thorough))))
        };
        let mut done = |k: u64, p: Plan, o: Outcome| -> bool {
            runs += 1;
            r0 += 1;
            sim_ns += o.sim_ns;
            steps += o.steps;
            switches += o.switches;
            preempt += o.preempt;
            for (a, b) in &o.counts {
                *tot.entry(a.clone()).or_insert(0) += b;
            }
            for (a, b) in &o.faults {
                *faults.entry(a.clone()).or_insert(0) += b;
            }
            if hashes.insert(o.hash) && (o.preempt > 0 || !o.faults.is_empty() || o.counts.contains_key("nontrivial")) {
                nontriv += 1;
            }
            scheds.insert(o.sched_hash);
            if samples.len() < 3 && o.sig.is_none() && !o.sample.is_empty() && r0 > nd {
                samples.push(json!({"scenario": p.scenario, "run_seed": p.seed, "sched": match &p.sched { SchedSpec::Seq => "sequential".to_string(), s => format!("{:?}", s).chars().take(80).collect() }, "faults": p.faults, "crash": p.crash, "history": o.sample.iter().take(25).collect::<Vec<_>>() }));
            }
            if let Some(h) = &o.harness_error {
                if harness.is_none() {
                    harness = Some(format!("scenario {} run {k} seed {}: {h}", p.scenario, p.seed));
                    let _ = std::fs::write("/tmp/simcheck-harness-error.json", serde_json::to_string_pretty(&p).unwrap());
                }
                return false;
            }
            if let Some(s) = &o.sig {
                if kn.iter().any(|x| &x.0 == s) {
                    *known_hits.entry(s.clone()).or_insert(0) += 1;
                    return true;
                }
                if viol.as_ref().map(|v| v.0 > k).unwrap_or(true) {
                    viol = Some((k, p, o, si));
                }
                return false;
            }
            true
        };
        pool.run(*sc, false, &mut next, &mut done);
        per_sc.insert(
            sc.name().to_string(),
            json!({"runs": r0, "distinct_nontrivial": nontriv, "wall_s": (raw::now_ns() - ts) as f64 / 1e9, "real": sc.real()}),
        );
        *tot.entry("__nontriv".into()).or_insert(0) += nontriv;
    }
    let wall = (raw::now_ns() - t0) as f64 / 1e9;
    for (sig, what) in &kn {
        println!("KNOWN-FINDING: property={property} {what} (signature {sig}, seen in {} of {runs} runs)", known_hits.get(sig).unwrap_or(&0));
    }
    let mut code = 0;
    let mut nviol = 0;
    if let Some(h) = harness {
        eprintln!("HARNESS ERROR: {h}");
        code = 2;
    } else if let Some((k, p, o, si)) = viol {
        nviol = 1;
        code = 1;
        let sc = scs[si];
        println!("violation in run {k} (scenario {}, run seed {}): {}", sc.name(), p.seed, o.msg);
        let again = pool.one(sc, &p, false);
        if again.sig != o.sig || (again.hash != o.hash && o.hash != 0) {
            println!("WARNING: the run did not repeat exactly: {:?} / {:?}", again.sig, again.msg);
        }
        println!("minimising ({} operations, {} faults, {} switches)...", p.ops(), p.faults.len(), o.log.len());
        let (mp, mo) = minimise(&pool, sc, &p, &o, env_u64("SIM_MIN").unwrap_or(60));
        let f = write_replay(&pool, sc, &p, &mp, &mo);
        println!("minimised to {} operations, {} faults, {} switches: {}", mp.ops(), mp.faults.len(), mo.log.len(), mo.msg);
        println!("VIOLATION property={property} replay={f}");
    }
    let nontriv = tot.remove("__nontriv").unwrap_or(0);
    let ev = json!({
        "property": property,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontriv,
            "rule": scs.iter().map(|s| format!("{}: {}", s.name(), s.rule())).collect::<Vec<_>>().join(" | ") + " A run is one seed: plan, schedule, faults and random bytes all derive from it. Distinct = different fingerprint (switches, I/O calls, history); non-trivial = at least one preemption, injected fault, or scenario-specific condition.",
            "samples": samples,
            "runs_per_hour": (runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "simulated_time_s": sim_ns as f64 / 1e9,
            "scheduling_points": steps,
            "context_switches": switches,
            "preemptions": preempt,
            "distinct_schedules": scheds.len(),
            "distinct_executions": hashes.len(),
            "faults_injected": faults,
            "probes": tot,
            "scenarios": per_sc,
            "known_findings_hit": known_hits,
            "real_components": scs.iter().map(|s| format!("{}: {}", s.name(), s.real())).collect::<Vec<_>>(),
            "stubs": "kernel threads' scheduling, futexes, clocks, getrandom, the file system and memory-protection calls are simulated below libc; the repository's crates and their dependencies run as compiled from /repo",
        },
        "assumptions": [
            "sequentially consistent interleavings at instrumented atomic and memory accesses; weak-memory reorderings are not explored",
            "the simulated disk follows POSIX: data is durable after fsync of the file, names after fsync of the directory",
            "seeded sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": nviol,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{property}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write evidence");
        code = 2;
    }
    println!("{property}: {runs} runs, {nontriv} distinct non-trivial, {} schedules, {:.1} s, exit {code}", scheds.len(), wall);
    code
}

fn write_replay(pool: &Pool, sc: &dyn Scenario, orig: &Plan, p: &Plan, o: &Outcome) -> String {
    let tr = pool.one(sc, p, true);
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{}-{}.json", p.property, p.scenario, orig.seed));
    let v = json!({
        "property": p.property, "scenario": p.scenario,
        "signature": o.sig, "message": o.msg,
        "fingerprint": format!("{:016x}", tr.hash),
        "original_run_seed": orig.seed,
        "plan": p, "history": tr.sample, "trace": tr.events,
    });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&v).unwrap());
    let mut s = String::new();
    for l in tr.sample.iter().take(40) {
        let _ = writeln!(s, "  {l}");
    }
    print!("{s}");
    f.display().to_string()
}

pub fn replay(file: &str, all: &[&dyn Scenario]) -> i32 {
    let t = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&t).expect("json");
    let plan: Plan = serde_json::from_value(if v["plan"].is_null() { v.clone() } else { v["plan"].clone() }).expect("plan");
    let sc = all.iter().find(|s| s.name() == plan.scenario).expect("scenario");
    let pool = Pool::new();
    let o = pool.one(*sc, &plan, true);
    for e in &o.events {
        println!("{e}");
    }
    println!("--- history");
    for l in &o.sample {
        println!("{l}");
    }
    println!("--- phases {:?} steps {} faults {:?} counts {:?}", o.ends, o.steps, o.faults, o.counts);
    println!("fingerprint {:016x}", o.hash);
    if let Some(h) = o.harness_error {
        eprintln!("HARNESS ERROR: {h}");
        return 2;
    }
    match o.sig {
        Some(s) => {
            let f = v["fingerprint"].as_str().unwrap_or("");
            if !f.is_empty() && f != format!("{:016x}", o.hash) {
                println!("note: fingerprint differs from the recorded one ({f})");
            }
            println!("{s}: {}", o.msg);
            println!("VIOLATION property={} replay={file}", plan.property);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}

/// Determinism self-test: every plan twice, fingerprints must agree.
pub fn selftest(scs: &[&dyn Scenario], n: u64) -> i32 {
    let seed = env_u64("VERIF_SEED").unwrap_or(1);
    let pool = Pool::new();
    let mut bad = 0;
    for (si, sc) in scs.iter().enumerate() {
        let mut h: BTreeMap<u64, Vec<(u64, Option<String>)>> = BTreeMap::new();
        let mut explicit = vec![];
        for round in 0..3 {
            let mut k = 0;
            pool.run(
                *sc,
                round == 1,
                &mut || {
                    if k >= n {
                        return None;
                    }
                    let i = k;
                    k += 1;
                    let i = if round == 2 { n - 1 - i } else { i };
                    let mut r = Rng::new(simrt::rng::mix(seed).wrapping_add(simrt::rng::mix(i.wrapping_mul(7919) ^ (si as u64) << 40)));
                    Some((i, styled(sc.gen(&mut r, i, false))))
                },
                &mut |k, p, o| {
                    h.entry(k).or_default().push((o.hash, o.sig.clone().or(o.harness_error.clone())));
                    if round == 0 && k % 7 == 0 {
                        let mut q = p;
                        q.sched = SchedSpec::Explicit { sw: o.log.clone() };
                        explicit.push((k, q));
                    }
                    true
                },
            );
        }
        let kept = explicit.clone();
        let mut it = explicit.into_iter();
        let mut ex = 0;
        pool.run(*sc, false, &mut || it.next(), &mut |k, _p, o| {
            ex += 1;
            h.entry(k).or_default().push((o.hash, o.sig.clone().or(o.harness_error.clone())));
            true
        });
        let diff: Vec<u64> = h.iter().filter(|(_, v)| v.iter().any(|x| *x != v[0])).map(|(k, _)| *k).collect();
        println!("{} {}: {} plans x3 + {ex} explicit replays, {} differ {:?}", sc.property(), sc.name(), n, diff.len(), diff.iter().take(5).collect::<Vec<_>>());
        for d in diff.iter().take(2) {
            println!("   {:?}", h[d]);
            if let (Ok(dir), Some((k, q))) = (std::env::var("SELFTEST_DUMP"), kept.iter().find(|x| x.0 == *d)) {
                let mut r = Rng::new(simrt::rng::mix(seed).wrapping_add(simrt::rng::mix(k.wrapping_mul(7919) ^ (si as u64) << 40)));
                let p = styled(sc.gen(&mut r, *k, false));
                for (n, p) in [("a", &p), ("b", q)] {
                    let o = pool.one(*sc, p, true);
                    let t = format!("{:?}\n{}\n{:?}", p.sched, o.events.join("\n"), o.log);
                    let _ = std::fs::write(format!("{dir}/{n}.txt"), t);
                }
            }
        }
        bad += diff.len();
    }
    (bad > 0) as i32
}

/// A schedule for the concurrent part of a run.
pub fn gen_sched(r: &mut Rng, len: u64) -> SchedSpec {
    match r.below(10) {
        0..=5 => {
            let mean = *r.pick(&[3, 8, 20, 50, 120, 300, 1000]);
            SchedSpec::Rand { seed: r.next() >> 1, mean }
        }
        _ => SchedSpec::Pct { seed: r.next() >> 1, d: 1 + r.below(4), len: *r.pick(&[len / 4 + 1, len, len * 2]) },
    }
}
