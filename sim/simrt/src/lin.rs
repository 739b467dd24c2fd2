//! Linearizability checker: depth-first search with memoisation over per-thread histories.
use std::collections::BTreeSet;

/// One operation of a history: invoked and returned at global sequence numbers. Its effect
/// is the sequence `subs` of atomic steps, all inside the interval, in order. A pending
/// operation (ret = u64::MAX with `pending`) may take effect partly, fully or not at all.
#[derive(Clone, Debug)]
pub struct Entry<O> {
    pub inv: u64,
    pub ret: u64,
    pub subs: Vec<O>,
    pub pending: bool,
    pub label: String,
}
pub trait Model {
    type S: Clone + Ord;
    type O;
    /// All states the step may lead to given what was observed; empty: not possible.
    fn step(&self, s: &Self::S, o: &Self::O) -> Vec<Self::S>;
    /// Whether the state is acceptable at the end.
    fn accept(&self, _s: &Self::S) -> bool {
        true
    }
}
#[derive(Debug, PartialEq)]
pub enum Verdict {
    Ok(u64),
    /// The longest linearizable prefix found, as (operations done, description).
    Bad(String),
    Unknown,
}
pub fn check<M: Model>(m: &M, init: &[M::S], threads: &[Vec<Entry<M::O>>], budget: u64) -> Verdict {
    let n = threads.len();
    // need[t][i][u]: entries of u that must be complete before entry i of t may start
    let mut need: Vec<Vec<Vec<usize>>> = vec![];
    for t in 0..n {
        let mut v = vec![];
        for e in &threads[t] {
            v.push((0..n).map(|u| if u == t { 0 } else { threads[u].iter().filter(|x| !x.pending && x.ret < e.inv).count() }).collect());
        }
        need.push(v);
    }
    let mut seen: BTreeSet<(Vec<(usize, usize)>, M::S)> = BTreeSet::new();
    let start: Vec<(usize, usize)> = vec![(0, 0); n];
    let mut stack: Vec<(Vec<(usize, usize)>, M::S)> = init.iter().map(|s| (start.clone(), s.clone())).collect();
    let mut nodes = 0;
    let mut best = 0usize;
    let mut best_pos = start.clone();
    while let Some((pos, st)) = stack.pop() {
        if !seen.insert((pos.clone(), st.clone())) {
            continue;
        }
        nodes += 1;
        if nodes > budget {
            return Verdict::Unknown;
        }
        let done = (0..n).all(|t| {
            let (i, _) = pos[t];
            i >= threads[t].len() || (i..threads[t].len()).all(|k| threads[t][k].pending)
        });
        if done && m.accept(&st) {
            return Verdict::Ok(nodes);
        }
        let sum: usize = pos.iter().map(|p| p.0 * 100 + p.1).sum();
        if sum > best {
            best = sum;
            best_pos = pos.clone();
        }
        for t in 0..n {
            let (i, j) = pos[t];
            if i >= threads[t].len() {
                continue;
            }
            let e = &threads[t][i];
            if j == 0 && !(0..n).all(|u| pos[u].0 >= need[t][i][u]) {
                continue;
            }
            if e.subs.is_empty() {
                let mut p = pos.clone();
                p[t] = (i + 1, 0);
                stack.push((p, st.clone()));
                continue;
            }
            for ns in m.step(&st, &e.subs[j]) {
                let mut p = pos.clone();
                p[t] = if j + 1 == e.subs.len() { (i + 1, 0) } else { (i, j + 1) };
                stack.push((p, ns));
            }
        }
    }
    let mut d = String::new();
    for t in 0..n {
        let (i, _) = best_pos[t];
        if i < threads[t].len() {
            d.push_str(&format!("t{t} stuck before '{}'; ", threads[t][i].label));
        }
    }
    Verdict::Bad(d)
}
