//! Walks a real object and its abstract machine in lockstep.  The machine's transitions
//! <<state, op, state', observation>> come from TLC; after every operation the observation of
//! the object must be one that the machine allows, and decides the state it continues in.
use crate::ctx::{Ctx, Rng};
use crate::val::{parse, Val};
use std::collections::HashMap;
use std::io::BufRead;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Graph {
    pub init: usize,
    pub ops: Vec<Val>,
    /// by state: (operation, allowed (observation, next state))
    pub next: Vec<Vec<(usize, Vec<(String, usize)>)>>,
}

impl Graph {
    pub fn load(path: &str) -> Graph {
        let mut states: HashMap<String, usize> = HashMap::new();
        let mut opid: HashMap<String, usize> = HashMap::new();
        let mut g = Graph { init: usize::MAX, ops: vec![], next: vec![] };
        let mut lines: Vec<String> = vec![];
        for l in std::io::BufReader::new(std::fs::File::open(path).unwrap()).lines() {
            let l = l.unwrap();
            if l.starts_with("\"T") || l.starts_with("\"I") {
                lines.push(l[1..l.trim_end().len() - 1].replace("\\\"", "\""));
            }
        }
        lines.sort();
        lines.dedup();
        let mut id = |s: &Val, next: &mut Vec<Vec<_>>| {
            *states.entry(s.to_string()).or_insert_with(|| {
                next.push(vec![]);
                next.len() - 1
            })
        };
        for l in &lines {
            let v = parse(&l[1..]).unwrap_or_else(|e| {
                eprintln!("cannot parse {l}: {e}");
                std::process::exit(2)
            });
            if l.starts_with('I') {
                g.init = id(&v, &mut g.next);
                continue;
            }
            let (a, b) = (id(v.at(0), &mut g.next), id(v.at(2), &mut g.next));
            let o = v.at(1).to_string();
            let n = opid.len();
            let o = *opid.entry(o).or_insert_with(|| {
                g.ops.push(v.at(1).clone());
                n
            });
            let obs = v.at(3).to_string();
            let out = &mut g.next[a];
            match out.iter_mut().find(|x| x.0 == o) {
                Some(x) => x.1.push((obs, b)),
                None => out.push((o, vec![(obs, b)])),
            }
        }
        if g.init == usize::MAX {
            eprintln!("no initial state in {path}");
            std::process::exit(2);
        }
        g
    }
    /// Number of histories of each length up to `d` from the initial state.
    fn count(&self, d: usize) -> Vec<f64> {
        let mut w = vec![0f64; self.next.len()];
        w[self.init] = 1.0;
        let mut out = vec![1.0];
        for _ in 0..d {
            let mut v = vec![0f64; w.len()];
            for (s, n) in self.next.iter().enumerate() {
                if w[s] > 0.0 {
                    for (_, t) in n {
                        v[t[0].1] += w[s];
                    }
                }
            }
            w = v;
            out.push(w.iter().sum());
        }
        out
    }
    /// A shortest history to every state.
    fn paths(&self) -> Vec<Option<Vec<usize>>> {
        let mut p: Vec<Option<Vec<usize>>> = vec![None; self.next.len()];
        p[self.init] = Some(vec![]);
        let mut q = std::collections::VecDeque::from([self.init]);
        while let Some(s) = q.pop_front() {
            for (o, t) in &self.next[s] {
                for (_, b) in t {
                    if p[*b].is_none() {
                        let mut h = p[s].clone().unwrap();
                        h.push(*o);
                        p[*b] = Some(h);
                        q.push_back(*b);
                    }
                }
            }
        }
        p
    }
}

pub trait Machine {
    fn new(rng: &mut Rng) -> Self;
    /// Performs the operation and reports what a user observes after it.
    fn apply(&mut self, op: &Val) -> Result<Val, String>;
    /// An operation to repeat at the end of a history until it changes nothing.
    fn drain() -> Option<&'static str> {
        None
    }
}

fn text(g: &Graph, h: &[usize]) -> String {
    h.iter().map(|o| g.ops[*o].to_string()).collect::<Vec<_>>().join("; ")
}

/// Runs a history given step by step: `choose(i, state)` is the i-th operation.  Returns the
/// state reached by it, or None when it could not be continued or failed.
fn run<M: Machine>(ctx: &mut Ctx, g: &Graph, mut choose: impl FnMut(&mut Ctx, usize, usize) -> Option<usize>) -> Option<usize> {
    let mut rng = Rng::new(ctx.rng.next());
    let mut m = M::new(&mut rng);
    let mut s = g.init;
    let mut done: Vec<usize> = vec![];
    let mut end = None;
    loop {
        let o = match if end.is_none() { choose(ctx, done.len(), s) } else { None } {
            Some(o) => o,
            None => {
                end.get_or_insert(s);
                match M::drain().and_then(|d| g.next[s].iter().find(|x| g.ops[x.0].to_string() == d)) {
                    Some(x) if x.1.iter().any(|t| t.1 != s) => x.0,
                    _ => return end,
                }
            }
        };
        let (_, allowed) = g.next[s].iter().find(|x| x.0 == o)?;
        let op = &g.ops[o];
        done.push(o);
        let r = ctx.call(|| m.apply(op));
        let got = match r {
            Ok(Ok(v)) => v.to_string(),
            Ok(Err(e)) | Err(e) => {
                ctx.case = text(g, &done);
                ctx.fail(format!("after {op}: {e}"));
                std::mem::forget(m);
                return None;
            }
        };
        match allowed.iter().find(|t| t.0 == got) {
            Some(t) => s = t.1,
            None => {
                ctx.case = text(g, &done);
                let exp: Vec<&str> = allowed.iter().map(|t| t.0.as_str()).collect();
                ctx.fail(format!("after {op}: observed {got}, specified {}", exp.join(" or ")));
                std::mem::forget(m);
                return None;
            }
        }
    }
}

/// Runs a fixed history.  Where the machine is free to choose, the next operation may be named
/// differently in the state chosen: then the one that differs only in a generated tag is meant.
fn fixed<M: Machine>(ctx: &mut Ctx, g: &Graph, h: &[usize]) -> Option<usize> {
    run::<M>(ctx, g, |_, i, s| {
        let o = *h.get(i)?;
        if g.next[s].iter().any(|x| x.0 == o) {
            return Some(o);
        }
        let op = g.ops[o].items();
        g.next[s].iter().map(|x| x.0).find(|x| {
            let y = g.ops[*x].items();
            y.len() == op.len() && op.len() > 2 && y[..op.len() - 1] == op[..op.len() - 1]
        })
    })
}

pub struct Plan {
    /// how many histories to enumerate exhaustively, shortest first
    pub budget: f64,
    /// operations appended, in every combination, to a shortest history to every state
    pub tour: usize,
    pub walks: u64,
    pub len: u64,
    pub threads: usize,
    pub seed: u64,
}

pub struct Report {
    pub histories: u64,
    pub depth: usize,
    pub all: Vec<Ctx>,
}

pub fn walk<M: Machine>(g: &Graph, tour: Option<&Graph>, p: &Plan) -> Report {
    // depth of the exhaustive enumeration
    let c = g.count(40);
    let mut depth = 0;
    let mut sum = 1.0;
    while depth + 1 < c.len() && sum + c[depth + 1] <= p.budget {
        depth += 1;
        sum += c[depth];
    }
    // stems: histories to extend.  (stem, operations to append in every combination)
    let mut jobs: Vec<(Vec<usize>, usize)> = vec![];
    let stem = depth.min(2);
    let mut front: Vec<(Vec<usize>, usize)> = vec![(vec![], g.init)];
    for _ in 0..stem {
        let mut nf = vec![];
        for (h, s) in &front {
            for (o, t) in &g.next[*s] {
                for t in t {
                    let mut k = h.clone();
                    k.push(*o);
                    if !nf.iter().any(|x: &(Vec<usize>, usize)| x.0 == k) {
                        nf.push((k, t.1));
                    }
                }
            }
        }
        front = nf;
    }
    jobs.extend(front.into_iter().map(|x| (x.0, depth - stem)));
    for h in g.paths().into_iter().flatten() {
        jobs.push((h, p.tour));
    }
    if let Some(t) = tour {
        // the same operations, by their text, in the graph that judges
        let by: HashMap<String, usize> = g.ops.iter().enumerate().map(|(i, o)| (o.to_string(), i)).collect();
        for h in t.paths().into_iter().flatten() {
            let h: Vec<usize> = h.iter().filter_map(|o| by.get(&t.ops[*o].to_string()).copied()).collect();
            jobs.push((h, p.tour));
        }
    }
    let next = AtomicUsize::new(0);
    let all: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    let hist = std::sync::atomic::AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..p.threads {
            let (jobs, next, all, hist) = (&jobs, &next, &all, &hist);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let mut ctx = Ctx::new(t, p.seed);
                    let mut n = 0u64;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() || ctx.fail_count > 50 {
                            break;
                        }
                        ctx.rng = Rng::new(p.seed.wrapping_mul(31) ^ i as u64);
                        extend::<M>(&mut ctx, g, &mut jobs[i].0.clone(), jobs[i].1, &mut n);
                    }
                    let mut w = t as u64;
                    while w < p.walks && ctx.fail_count <= 50 {
                        ctx.rng = Rng::new(p.seed.wrapping_mul(7919) ^ (w << 20));
                        random::<M>(&mut ctx, g, p.len, &mut n);
                        w += p.threads as u64;
                    }
                    hist.fetch_add(n, Ordering::SeqCst);
                    all.lock().unwrap().push(ctx);
                })
                .unwrap();
        }
    });
    Report { histories: hist.into_inner(), depth, all: all.into_inner().unwrap() }
}

fn extend<M: Machine>(ctx: &mut Ctx, g: &Graph, h: &mut Vec<usize>, more: usize, n: &mut u64) {
    let name = text(g, h);
    ctx.begin(&name);
    *n += 1;
    let s = fixed::<M>(ctx, g, h);
    ctx.end();
    if *n % 1000 == 1 {
        ctx.sample(|| name);
    }
    let s = match s {
        None => return,
        Some(s) => s,
    };
    if more == 0 || ctx.fail_count > 50 {
        return;
    }
    let ops: Vec<usize> = g.next[s].iter().map(|x| x.0).collect();
    for o in ops {
        h.push(o);
        extend::<M>(ctx, g, h, more - 1, n);
        h.pop();
    }
}

fn random<M: Machine>(ctx: &mut Ctx, g: &Graph, len: u64, n: &mut u64) {
    // A random walk, biased by a preference for some operations that changes along the way.
    ctx.begin("a random walk");
    *n += 1;
    let mut bias = 0;
    run::<M>(ctx, g, |ctx, i, s| {
        if i as u64 >= len {
            return None;
        }
        if i % 16 == 0 {
            bias = ctx.rng.next();
        }
        let ops = &g.next[s];
        if ops.is_empty() {
            return None;
        }
        let mut k = ctx.rng.below(ops.len() as u64) as usize;
        for _ in 0..3 {
            // operations that reset everything are kept rare
            let reset = matches!(g.ops[ops[k].0].at(0), Val::S(s) if s == "clear");
            let liked = (bias >> (ops[k].0 % 61)) & 1 == 1;
            if (reset && ctx.rng.below(20) > 0) || !liked {
                k = ctx.rng.below(ops.len() as u64) as usize;
            }
        }
        Some(ops[k].0)
    });
    ctx.end();
}
