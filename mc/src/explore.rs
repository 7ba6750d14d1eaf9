//! Explicit-state exploration of real executions.
//!
//! A `Model` gives initial states, the actions enabled in a state and a step function that runs the
//! real contracts on a copy of the state and compares them with a reference specification. `Ctx::run`
//! enumerates *every* action sequence up to a depth, breadth first, in parallel, merging states with
//! equal canonical keys; a level is always finished, so results do not depend on timing.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub enum Step<S> {
    /// successor state, explored further
    Next(S),
    /// end of a case; the digest identifies the observed outcome
    Leaf(u128),
    /// nothing changed
    Same,
}

pub type Cov = BTreeMap<&'static str, u64>;
pub trait CovExt {
    fn hit(&mut self, k: &'static str);
}
impl CovExt for Cov {
    fn hit(&mut self, k: &'static str) {
        *self.entry(k).or_default() += 1;
    }
}

pub type Res<T> = Result<T, String>;

pub trait Model: Sync {
    type S: Clone + Send + Sync;
    type A: Clone + Debug + Send + Sync;
    fn init(&self) -> Res<Vec<(String, Self::S)>>;
    fn actions(&self, s: &Self::S) -> Vec<Self::A>;
    fn step(&self, s: &Self::S, a: &Self::A, cov: &mut Cov) -> Res<Step<Self::S>>;
    fn key(&self, s: &Self::S) -> u128;
    /// invariant of a state
    fn check(&self, _s: &Self::S, _cov: &mut Cov) -> Res<()> {
        Ok(())
    }
    /// coverage counters that must not be zero, or the exploration was vacuous
    fn must_hit(&self) -> Vec<&'static str> {
        vec![]
    }
}

#[derive(Default)]
struct Stat {
    name: String,
    states: u64,
    transitions: u64,
    validated: u64,
    clocked: u64,
    depth: usize,
    exhausted: bool,
    cov: BTreeMap<String, u64>,
}

/// blocks between transactions: a new block each, and years
const CLOCKS: [u64; 2] = [1, 20_000_000];

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    start: Instant,
    stats: Vec<Stat>,
    samples: Vec<Value>,
    pub assumptions: Vec<String>,
    known: Vec<(String, String)>,
    replay: Option<(String, String, Vec<String>)>,
    /// blocks that pass before every transaction of the replayed history
    pub replay_clock: u64,
    replay_hit: bool,
    only: Option<String>,
}

fn guard<R>(f: impl FnOnce() -> Res<R>) -> Res<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(format!(
            "unexpected observation: {}",
            p.downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default()
        )),
    }
}

struct Node {
    parent: u32,
    action: u32,
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, seed: u64) -> Self {
        let root = verif_root();
        let known = std::fs::read_to_string(format!("{root}/known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                // known: property=<id> history=<model|init|a;b;c> -- <what fails>
                let l = l.strip_prefix("known: ")?;
                let rest = l.strip_prefix(&format!("property={id} history="))?;
                let (h, what) = rest.split_once(" -- ")?;
                Some((h.to_string(), what.to_string()))
            })
            .collect();
        Ctx {
            id: id.into(),
            tier,
            seed,
            threads: std::thread::available_parallelism()
                .map(|n| n.get())
                .unwrap_or(4)
                .min(16),
            start: Instant::now(),
            stats: vec![],
            samples: vec![],
            assumptions: vec![],
            known,
            replay: None,
            replay_clock: 0,
            replay_hit: false,
            only: std::env::var("MC_ONLY").ok(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }
    pub fn set_replay(&mut self, model: String, init: String, actions: Vec<String>) {
        self.replay = Some((model, init, actions));
    }

    /// deployment shared by several models; a failing deployment is a violation
    pub fn setup<T>(&self, f: impl FnOnce() -> Res<T>) -> T {
        match guard(f) {
            Ok(v) => v,
            Err(e) => self.violation("deployment", "setup", &[], &format!("deployment failed: {e}"), 0),
        }
    }

    fn violation(&self, model: &str, init: &str, actions: &[String], err: &str, clock: u64) -> ! {
        let root = verif_root();
        let dir = format!("{root}/evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.json", self.id);
        let v = json!({
            "property": self.id, "tier": if self.thorough() {"thorough"} else {"quick"},
            "model": model, "init": init, "actions": actions, "error": err, "blocks_between": clock,
            "how_to_replay": format!("bash /verif/run.sh replay {path}"),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        self.write_evidence(1);
        println!("model {model} from [{init}]:");
        for a in actions {
            println!("   {}", clip(a));
        }
        if clock != 0 {
            println!("   ({clock} blocks pass before every transaction)");
        }
        println!("   => {err}");
        println!("VIOLATION property={} replay={path}", self.id);
        std::process::exit(1);
    }

    fn known_match(&self, model: &str, init: &str, actions: &[String]) -> Option<String> {
        let h = format!("{model}|{init}|{}", actions.join(";"));
        self.known.iter().find(|(k, _)| *k == h).map(|(_, w)| w.clone())
    }

    /// explore `model` exhaustively up to `depth` actions (the run stops with an error exit if more
    /// than `cap` states are found: a capped run is never reported as complete)
    pub fn run<M: Model>(&mut self, name: &str, model: &M, depth: usize, cap: usize) {
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((m, i, acts)) = self.replay.clone() {
            if m == name {
                self.replay_hit = true;
                self.do_replay(model, &i, &acts);
            }
            return;
        }
        let t0 = Instant::now();
        let mut st = Stat {
            name: name.into(),
            ..Default::default()
        };
        let inits = match guard(|| model.init()) {
            Ok(v) => v,
            Err(e) => self.violation(name, "setup", &[], &format!("deployment failed: {e}"), 0),
        };
        let mut cov: Cov = Default::default();
        let mut nodes: Vec<Node> = vec![];
        let mut seen: HashSet<u128> = HashSet::new();
        let mut leaves: HashSet<u128> = HashSet::new();
        let mut frontier: Vec<(u32, M::S)> = vec![];
        for (i, (label, s)) in inits.iter().enumerate() {
            if let Err(e) = guard(|| model.check(s, &mut cov)) {
                self.violation(name, label, &[], &e, 0);
            }
            nodes.push(Node {
                parent: u32::MAX,
                action: i as u32,
            });
            if seen.insert(model.key(s)) {
                frontier.push((nodes.len() as u32 - 1, s.clone()));
            }
        }
        let mut last_level: Vec<(u32, u32)> = vec![]; // (parent node, action) of leaves for sampling
        let mut level = 0;
        st.exhausted = false;
        while level < depth && !frontier.is_empty() {
            level += 1;
            // enabled actions of every frontier state
            let acts: Vec<Vec<M::A>> = par_map(self.threads, frontier.len(), |i| {
                model.actions(&frontier[i].1)
            });
            let mut starts = Vec::with_capacity(acts.len() + 1);
            let mut total = 0usize;
            for a in &acts {
                starts.push(total);
                total += a.len();
            }
            starts.push(total);
            st.transitions += total as u64;
            let next = AtomicUsize::new(0);
            let worst = AtomicUsize::new(usize::MAX);
            type Out<S> = (usize, Option<(u128, Option<S>)>);
            let outs: Mutex<Vec<Out<M::S>>> = Mutex::new(vec![]);
            let errs: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
            let covs: Mutex<Vec<Cov>> = Mutex::new(vec![]);
            let block = (total / (self.threads * 16)).clamp(1, 256);
            std::thread::scope(|sc| {
                for _ in 0..self.threads {
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, || {
                            let mut local: Vec<Out<M::S>> = vec![];
                            let mut lseen: HashSet<u128> = HashSet::new();
                            let mut lcov: Cov = Default::default();
                            loop {
                                let b = next.fetch_add(block, Ordering::Relaxed);
                                if b >= total {
                                    break;
                                }
                                for g in b..(b + block).min(total) {
                                    if g > worst.load(Ordering::Relaxed) {
                                        continue;
                                    }
                                    let p = starts.partition_point(|x| *x <= g) - 1;
                                    let a = &acts[p][g - starts[p]];
                                    let r = guard(|| {
                                        match model.step(&frontier[p].1, a, &mut lcov)? {
                                            Step::Next(s) => {
                                                let k = model.key(&s);
                                                if !seen.contains(&k) && lseen.insert(k) {
                                                    model.check(&s, &mut lcov)?;
                                                    return Ok(Some((k, Some(s))));
                                                }
                                                Ok(None)
                                            }
                                            Step::Leaf(d) => Ok(Some((d, None))),
                                            Step::Same => Ok(None),
                                        }
                                    });
                                    match r {
                                        Ok(Some(x)) => local.push((g, Some(x))),
                                        Ok(None) => {}
                                        Err(e) => {
                                            // a listed finding is reported, not raised again
                                            errs.lock().unwrap().push((g, e));
                                            if self.known.is_empty() {
                                                worst.fetch_min(g, Ordering::Relaxed);
                                            }
                                        }
                                    }
                                }
                            }
                            outs.lock().unwrap().extend(local);
                            covs.lock().unwrap().push(lcov);
                        })
                        .unwrap();
                }
            });
            for c in covs.into_inner().unwrap() {
                for (k, v) in c {
                    *cov.entry(k).or_default() += v;
                }
            }
            let mut errs = errs.into_inner().unwrap();
            errs.sort();
            for (g, e) in &errs {
                let p = starts.partition_point(|x| *x <= *g) - 1;
                let (init, mut hist) = history(model, &nodes, frontier[p].0, &inits);
                hist.push(format!("{:?}", acts[p][*g - starts[p]]));
                if let Some(w) = self.known_match(name, &init, &hist) {
                    println!("KNOWN-FINDING: property={} {w}", self.id);
                    continue;
                }
                self.violation(name, &init, &hist, e, 0);
            }
            let mut outs = outs.into_inner().unwrap();
            outs.sort_by_key(|o| o.0);
            let mut nf = vec![];
            last_level.clear();
            for (g, o) in outs {
                let Some((k, s)) = o else { continue };
                let p = starts.partition_point(|x| *x <= g) - 1;
                match s {
                    Some(s) => {
                        if seen.insert(k) {
                            nodes.push(Node {
                                parent: frontier[p].0,
                                action: (g - starts[p]) as u32,
                            });
                            nf.push((nodes.len() as u32 - 1, s));
                        }
                    }
                    None => {
                        if leaves.insert(k) {
                            last_level.push((frontier[p].0, (g - starts[p]) as u32));
                        }
                    }
                }
            }
            if nodes.len() > cap {
                eprintln!("{}: {name}: more than {cap} states - exploration incomplete", self.id);
                std::process::exit(3);
            }
            frontier = nf;
        }
        st.exhausted = frontier.is_empty();
        st.depth = level;
        st.states = (seen.len() + leaves.len()) as u64;

        // re-execute a deterministic subset of the histories from scratch on freshly deployed
        // contracts: every observation and the final state must be identical
        let mut picks: Vec<(u32, Option<u32>)> = vec![];
        let want = if self.thorough() { 400 } else { 60 };
        let n = nodes.len();
        for i in 0..want.min(n) {
            picks.push(((n - 1 - i * n / want.min(n)) as u32, None));
        }
        let m = last_level.len();
        for i in 0..want.min(m) {
            let (p, a) = last_level[m - 1 - i * m / want.min(m)];
            picks.push((p, Some(a)));
        }
        let fresh = match guard(|| model.init()) {
            Ok(v) => v,
            Err(e) => self.violation(name, "setup", &[], &e, 0),
        };
        let bad: Vec<Option<String>> = par_map(self.threads, picks.len(), |i| {
            let (node, leaf) = picks[i];
            guard(|| {
                let mut idx = vec![];
                let mut n = node;
                while nodes[n as usize].parent != u32::MAX {
                    idx.push(nodes[n as usize].action);
                    n = nodes[n as usize].parent;
                }
                let start = nodes[n as usize].action as usize;
                let mut s = fresh[start].1.clone();
                let mut t = inits[start].1.clone();
                let mut c: Cov = Default::default();
                for a in idx.iter().rev() {
                    let aa = model.actions(&s)[*a as usize].clone();
                    let bb = model.actions(&t)[*a as usize].clone();
                    if format!("{aa:?}") != format!("{bb:?}") {
                        return Err("enabled actions differ on replay".into());
                    }
                    s = match model.step(&s, &aa, &mut c)? {
                        Step::Next(s) => s,
                        _ => return Err("replay diverges".into()),
                    };
                    t = match model.step(&t, &bb, &mut c)? {
                        Step::Next(t) => t,
                        _ => return Err("replay diverges".into()),
                    };
                    if model.key(&s) != model.key(&t) {
                        return Err("replay reaches a different state".into());
                    }
                }
                if let Some(a) = leaf {
                    let aa = model.actions(&s)[a as usize].clone();
                    let x = model.step(&s, &aa, &mut c)?;
                    let y = model.step(&t, &aa, &mut c)?;
                    match (x, y) {
                        (Step::Leaf(x), Step::Leaf(y)) if x == y => {}
                        _ => return Err("replay of a case diverges".into()),
                    }
                }
                Ok(())
            })
            .err()
        });
        if let Some(e) = bad.iter().flatten().next() {
            eprintln!("{}: {name}: nondeterminism: {e}", self.id);
            std::process::exit(4);
        }
        st.validated = picks.len() as u64;

        // the same and more histories while time passes between the transactions (the exploration
        // itself runs within one block)
        let want = if self.thorough() { 4000 } else { 400 };
        let mut picks: Vec<(u32, Option<u32>, u64)> = vec![];
        for clock in CLOCKS {
            for i in 0..want.min(n) {
                picks.push(((n - 1 - i * n / want.min(n)) as u32, None, clock));
            }
            for i in 0..want.min(m) {
                let (p, a) = last_level[m - 1 - i * m / want.min(m)];
                picks.push((p, Some(a), clock));
            }
        }
        let bad: Vec<Option<(Vec<String>, String)>> = par_map(self.threads, picks.len(), |i| {
            let (node, leaf, clock) = picks[i];
            let mut idx = vec![];
            let mut n = node;
            while nodes[n as usize].parent != u32::MAX {
                idx.push(nodes[n as usize].action);
                n = nodes[n as usize].parent;
            }
            idx.reverse();
            idx.extend(leaf);
            let start = nodes[n as usize].action as usize;
            let mut hist = vec![];
            let r = guard(|| {
                // the actions are those of the original history
                let mut s = fresh[start].1.clone();
                let mut t = inits[start].1.clone();
                let mut c: Cov = Default::default();
                for (k, a) in idx.iter().enumerate() {
                    let a = model.actions(&t)[*a as usize].clone();
                    hist.push(format!("{a:?}"));
                    let last = k + 1 == idx.len();
                    if !last {
                        match model.step(&t, &a, &mut c)? {
                            Step::Next(x) => t = x,
                            _ => return Err("replay diverges".into()),
                        }
                    }
                    sim::chain::CLOCK.with(|c| c.set(clock));
                    let r = guard(|| match model.step(&s, &a, &mut c)? {
                        Step::Next(x) => {
                            if last {
                                model.check(&x, &mut c)?;
                            }
                            Ok(Some(x))
                        }
                        _ if last && leaf.is_some() => Ok(None),
                        _ => Err("has no effect when time passes".into()),
                    });
                    sim::chain::CLOCK.with(|c| c.set(0));
                    match r? {
                        Some(x) => s = x,
                        None => return Ok(()),
                    }
                }
                Ok(())
            });
            r.err().map(|e| (hist, e))
        });
        st.clocked = picks.len() as u64;
        for (i, b) in bad.iter().enumerate() {
            if let Some((hist, e)) = b {
                let (init, _) = history(model, &nodes, picks[i].0, &inits);
                self.violation(name, &init, hist, e, picks[i].2);
            }
        }

        // samples
        let mut sample_nodes = vec![];
        if n > 1 {
            sample_nodes.push((n as u32 - 1, None));
        }
        if let Some((p, a)) = last_level.get(m / 2) {
            sample_nodes.push((*p, Some(*a)));
        }
        for (nd, leaf) in sample_nodes {
            let (init, mut h) = history(model, &nodes, nd, &inits);
            if let Some(a) = leaf {
                if h.is_empty() {
                    let acts = model.actions(&inits[nodes[nd as usize].action as usize].1);
                    h.push(format!("{:?}", acts[a as usize]));
                }
            }
            self.samples.push(json!({"model": name, "init": init, "history": h.iter().map(|x| clip(x)).collect::<Vec<_>>()}));
        }

        st.cov = cov.iter().map(|(k, v)| (k.to_string(), *v)).collect();
        for k in model.must_hit() {
            if !cov.contains_key(k) {
                eprintln!("{}: {name}: vacuous exploration, never reached: {k}", self.id);
                std::process::exit(5);
            }
        }
        println!(
            "{} {name}: states={} transitions={} depth={}{} replayed={} {:.1}s {:?}",
            self.id,
            st.states,
            st.transitions,
            st.depth,
            if st.exhausted { " (closed)" } else { "" },
            st.validated,
            t0.elapsed().as_secs_f64(),
            cov
        );
        self.stats.push(st);
    }

    fn do_replay<M: Model>(&mut self, model: &M, init: &str, acts: &[String]) {
        let inits = match guard(|| model.init()) {
            Ok(v) => v,
            Err(e) => {
                println!("deployment failed: {e}");
                println!("VIOLATION property={} replay=reproduced", self.id);
                std::process::exit(1);
            }
        };
        let mut cov: Cov = Default::default();
        let Some((_, s)) = inits.iter().find(|(l, _)| l == init) else {
            if init == "setup" {
                println!("deployment succeeds now");
                return;
            }
            panic!("no initial state {init}");
        };
        let mut s = s.clone();
        sim::chain::CLOCK.with(|c| c.set(self.replay_clock));
        for a in acts {
            let Some(x) = model
                .actions(&s)
                .into_iter()
                .find(|x| format!("{x:?}") == *a)
            else {
                println!("action not enabled any more: {a}");
                return;
            };
            println!("step {}", clip(a));
            let r = guard(|| {
                let n = model.step(&s, &x, &mut cov)?;
                if let Step::Next(n) = &n {
                    model.check(n, &mut cov)?;
                }
                Ok(n)
            });
            match r {
                Ok(Step::Next(n)) => s = n,
                Ok(_) => {}
                Err(e) => {
                    println!("   => {e}");
                    println!("VIOLATION property={} replay=reproduced", self.id);
                    std::process::exit(1);
                }
            }
        }
        println!("history replayed, property holds on it");
    }

    fn write_evidence(&self, violations: u64) {
        let root = verif_root();
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let states: u64 = self.stats.iter().map(|s| s.states).sum();
        let transitions: u64 = self.stats.iter().map(|s| s.transitions).sum();
        let validated: u64 = self.stats.iter().map(|s| s.validated).sum();
        let v = json!({
            "property": self.id,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": transitions,
                "traces_validated_against_impl": validated,
                "exhaustive": true,
                "samples": if self.samples.is_empty() { vec![json!("none")] } else { self.samples.clone() },
                "models": self.stats.iter().map(|s| json!({
                    "name": s.name, "states": s.states, "transitions": s.transitions,
                    "depth": s.depth, "closed": s.exhausted, "replayed_histories": s.validated, "replayed_while_time_passes": s.clocked,
                    "outcomes": s.cov,
                })).collect::<Vec<_>>(),
                "note": "every transition executes the real contract entry points; histories are re-executed from scratch on a fresh deployment and must reach identical states",
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        std::fs::write(
            format!("{root}/evidence/{}.json", self.id),
            serde_json::to_string_pretty(&v).unwrap(),
        )
        .expect("write evidence");
    }

    pub fn finish(self) {
        if self.replay.is_some() {
            if !self.replay_hit {
                println!("replay: no such model");
                std::process::exit(2);
            }
            return;
        }
        self.write_evidence(0);
        println!(
            "{} ok {:.1}s",
            self.id,
            self.start.elapsed().as_secs_f64()
        );
    }
}

fn history<M: Model>(
    model: &M,
    nodes: &[Node],
    node: u32,
    inits: &[(String, M::S)],
) -> (String, Vec<String>) {
    let mut idx = vec![];
    let mut n = node;
    while nodes[n as usize].parent != u32::MAX {
        idx.push(nodes[n as usize].action);
        n = nodes[n as usize].parent;
    }
    let (label, s) = &inits[nodes[n as usize].action as usize];
    let mut s = s.clone();
    let mut out = vec![];
    let mut c: Cov = Default::default();
    for a in idx.iter().rev() {
        let acts = model.actions(&s);
        let x = acts[*a as usize].clone();
        out.push(format!("{x:?}"));
        match guard(|| model.step(&s, &x, &mut c)) {
            Ok(Step::Next(n)) => s = n,
            _ => break,
        }
    }
    (label.clone(), out)
}

pub fn par_map<R: Send>(threads: usize, n: usize, f: impl Fn(usize) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(Vec::with_capacity(n));
    std::thread::scope(|sc| {
        for _ in 0..threads.min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, || {
                    let mut l = vec![];
                    loop {
                        let b = next.fetch_add(16, Ordering::Relaxed);
                        if b >= n {
                            break;
                        }
                        for i in b..(b + 16).min(n) {
                            l.push((i, f(i)));
                        }
                    }
                    out.lock().unwrap().extend(l);
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub fn clip(s: &str) -> String {
    if s.len() > 400 {
        format!("{}... ({} bytes)", &s[..400], s.len())
    } else {
        s.to_string()
    }
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// a flat set of cases: one initial state, every case is one action
pub struct Cases<S, A, F> {
    pub base: Box<dyn Fn() -> Res<S> + Sync>,
    pub cases: Vec<A>,
    pub f: F,
    pub must: Vec<&'static str>,
}
impl<S, A, F> Model for Cases<S, A, F>
where
    S: Clone + Send + Sync,
    A: Clone + Debug + Send + Sync,
    F: Fn(&S, &A, &mut Cov) -> Res<u128> + Sync,
{
    type S = S;
    type A = A;
    fn init(&self) -> Res<Vec<(String, S)>> {
        Ok(vec![("base".into(), (self.base)()?)])
    }
    fn actions(&self, _: &S) -> Vec<A> {
        self.cases.clone()
    }
    fn step(&self, s: &S, a: &A, cov: &mut Cov) -> Res<Step<S>> {
        Ok(Step::Leaf((self.f)(s, a, cov)?))
    }
    fn key(&self, _: &S) -> u128 {
        0
    }
    fn must_hit(&self) -> Vec<&'static str> {
        self.must.clone()
    }
}
impl Ctx {
    /// exhaustively check every case of a finite product
    pub fn cases<S, A, F>(
        &mut self,
        name: &str,
        base: impl Fn() -> Res<S> + Sync + 'static,
        cases: Vec<A>,
        must: &[&'static str],
        f: F,
    ) where
        S: Clone + Send + Sync,
        A: Clone + Debug + Send + Sync,
        F: Fn(&S, &A, &mut Cov) -> Res<u128> + Sync,
    {
        let m = Cases {
            base: Box::new(base),
            cases,
            f,
            must: must.to_vec(),
        };
        self.run(name, &m, 1, usize::MAX);
    }
}
