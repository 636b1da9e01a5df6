mod bind;
mod ctx;
mod curves;
mod lift;
mod machines;
mod record;
mod shapes;
mod sweep;
mod val;
mod walk;

use ctx::{Ctx, Fail};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Args {
    map: BTreeMap<String, String>,
}
impl Args {
    fn parse() -> (String, Args) {
        let mut it = std::env::args().skip(1);
        let cmd = it.next().unwrap_or_default();
        let mut map = BTreeMap::new();
        while let Some(k) = it.next() {
            let v = it.next().unwrap_or_default();
            map.insert(k.trim_start_matches("--").to_string(), v);
        }
        (cmd, Args { map })
    }
    fn s(&self, k: &str) -> String {
        self.map.get(k).cloned().unwrap_or_else(|| {
            eprintln!("missing --{k}");
            std::process::exit(2)
        })
    }
    fn opt(&self, k: &str, d: &str) -> String {
        self.map.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.map.get(k).map(|v| v.parse::<f64>().unwrap() as u64).unwrap_or(d)
    }
}

static OUT: Mutex<Option<String>> = Mutex::new(None);

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn result(cases: u64, execs: u64, fail_count: u64, fails: &[Fail], samples: &[String]) {
    let path = OUT.lock().unwrap().clone().unwrap();
    let mut f = std::fs::File::create(path).unwrap();
    let fl: Vec<String> = fails
        .iter()
        .map(|x| format!("{{\"case\":\"{}\",\"what\":\"{}\"}}", esc(&x.case), esc(&x.what)))
        .collect();
    let sm: Vec<String> = samples.iter().map(|x| format!("\"{}\"", esc(x))).collect();
    write!(
        f,
        "{{\"cases\":{cases},\"execs\":{execs},\"fail_count\":{fail_count},\"fails\":[{}],\"samples\":[{}]}}\n",
        fl.join(","),
        sm.join(",")
    )
    .unwrap();
}

fn hung(case: String) {
    bind::kill_all();
    let f = Fail { case, what: "the call did not return within 30 s".into() };
    result(0, 0, 1, &[f], &[]);
    std::process::exit(0);
}

fn replay_one(ctx: &mut Ctx, fam: &str, mode: &str, line: &str) {
    let v = match val::parse(line) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("cannot parse {line}: {e}");
            std::process::exit(2);
        }
    };
    if mode == "wasm" {
        bind::check(ctx, fam, &v);
        return;
    }
    match fam {
        "segseg" | "segcirc" | "circcirc" | "arc" => curves::check(ctx, fam, &v, mode),
        "lines" | "locate" | "proj" | "vec" | "hull" | "mono" | "simple" | "measure" | "inpoly" | "equal" => {
            shapes::check(ctx, fam, &v, mode)
        }
        "sweep" => sweep::check(ctx, &v, mode),
        _ => {
            eprintln!("unknown family {fam}");
            std::process::exit(2);
        }
    }
}

fn replay(a: &Args) {
    let fam = a.s("family");
    let mode = a.opt("mode", "");
    let seed = a.n("seed", 1);
    let lines = case_lines(&a.s("cases"));
    let threads = a.n("threads", 8) as usize;
    let log = a.map.get("log").cloned();
    let next = AtomicUsize::new(0);
    let all: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (lines, next, all, fam, mode, log) = (&lines, &next, &all, &fam, &mode, &log);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx::new(t, seed);
                    loop {
                        let st = next.fetch_add(64, Ordering::SeqCst);
                        if st >= lines.len() || ctx.fail_count > 200 {
                            break;
                        }
                        for i in st..(st + 64).min(lines.len()) {
                            let line = &lines[i];
                            ctx.rng = ctx::Rng::new(seed.wrapping_mul(1_000_003) ^ hash(line));
                            ctx.begin(line);
                            if let Some(p) = log {
                                std::fs::write(p, line).unwrap();
                            }
                            replay_one(&mut ctx, fam, mode, line);
                            ctx.end();
                        }
                    }
                    all.lock().unwrap().push(ctx);
                })
                .unwrap();
        }
    });
    let all = all.into_inner().unwrap();
    report(lines.len() as u64, &all);
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn case_lines(path: &str) -> Vec<String> {
    let file = std::io::BufReader::new(std::fs::File::open(path).unwrap());
    let mut lines = vec![];
    for l in file.lines() {
        let l = l.unwrap();
        let t = l.trim();
        if let Some(r) = t.strip_prefix("\"C") {
            lines.push(r.strip_suffix('"').unwrap_or(r).replace("\\\"", "\""));
        }
    }
    // The order in which TLC's workers print is not fixed; the cases are.
    lines.sort();
    lines
}

fn record(a: &Args) {
    let seed = a.n("seed", 1);
    let mut out: Vec<String> = vec![];
    let mut all = vec![];
    match a.s("what").as_str() {
        "tree" => {
            let mut ctx = Ctx::new(0, seed);
            record::tree(&mut ctx, a.n("count", 24), a.n("len", 400), &mut out);
            record::against(&mut ctx, a.n("count", 24) / 4, a.n("len", 400), &mut out);
            all.push(ctx);
        }
        "bulk" => {
            let mut ctx = Ctx::new(0, seed);
            record::bulk(&mut ctx, a.n("bits", 16) as u32, &mut out);
            all.push(ctx);
        }
        "queue" | "ring" | "half" => {
            let mut ctx = Ctx::new(0, seed);
            let f = match a.s("what").as_str() {
                "queue" => record::queue,
                "ring" => record::ring,
                _ => record::half,
            };
            f(&mut ctx, a.n("count", 24), a.n("len", 400), &mut out);
            all.push(ctx);
        }
        "earcut" => {
            let lines = case_lines(&a.s("cases"));
            let full = a.n("full", 0) == 1;
            let log = a.map.get("log").cloned();
            let next = AtomicUsize::new(0);
            let got: Mutex<Vec<(usize, Vec<String>)>> = Mutex::new(vec![]);
            let ctxs: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
            std::thread::scope(|s| {
                for t in 0..a.n("threads", 8) as usize {
                    let (lines, next, got, ctxs, log) = (&lines, &next, &got, &ctxs, &log);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut ctx = Ctx::new(t, seed);
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= lines.len() || ctx.fail_count > 50 {
                                    break;
                                }
                                let v = val::parse(&lines[i]).unwrap_or_else(|e| {
                                    eprintln!("cannot parse {}: {e}", lines[i]);
                                    std::process::exit(2)
                                });
                                let p: Vec<(f64, f64)> = v.at(0).items().iter().map(|p| p.pt()).collect();
                                let text = v.at(0).to_string();
                                ctx.rng = ctx::Rng::new(seed.wrapping_mul(1_000_003) ^ hash(&text));
                                ctx.begin(&text);
                                if let Some(f) = log {
                                    std::fs::write(f, &text).unwrap();
                                }
                                let r = record::earcut(&mut ctx, &p, v.at(1).at(0).bool(), &text, full);
                                ctx.end();
                                got.lock().unwrap().push((i, r));
                            }
                            ctxs.lock().unwrap().push(ctx);
                        })
                        .unwrap();
                }
            });
            let mut g = got.into_inner().unwrap();
            g.sort();
            out.extend(g.into_iter().flat_map(|x| x.1));
            all = ctxs.into_inner().unwrap();
        }
        w => {
            eprintln!("unknown recorder {w}");
            std::process::exit(2);
        }
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("records")).unwrap());
    writeln!(f, "[{}]", out.join(",\n")).unwrap();
    drop(f);
    report(out.len() as u64, &all);
}

fn walk_machine(a: &Args) {
    let g = walk::Graph::load(&a.s("graph"));
    let tour = a.map.get("tour-graph").map(|p| walk::Graph::load(p));
    let p = walk::Plan {
        budget: a.n("budget", 100_000) as f64,
        tour: a.n("tour", 1) as usize,
        walks: a.n("walks", 1000),
        len: a.n("len", 60),
        threads: a.n("threads", 8) as usize,
        seed: a.n("seed", 1),
    };
    use machines::*;
    let t = tour.as_ref();
    let r = match a.s("machine").as_str() {
        "tree" => walk::walk::<Tree<false>>(&g, t, &p),
        "bag" => walk::walk::<Tree<true>>(&g, t, &p),
        "ring" => walk::walk::<Ring>(&g, t, &p),
        "queue" => walk::walk::<Queue>(&g, t, &p),
        "halflist" => walk::walk::<HalfEdge<4, 4, false>>(&g, t, &p),
        "halfadj" => walk::walk::<HalfEdge<4, 3, false>>(&g, t, &p),
        "halfends" => walk::walk::<HalfEdge<3, 3, false>>(&g, t, &p),
        "halflinks" => walk::walk::<HalfEdge<4, 2, true>>(&g, t, &p),
        "triangle" => walk::walk::<Tri>(&g, t, &p),
        "wtriangle" => walk::walk::<bind::WTri>(&g, t, &p),
        "wsegment" => walk::walk::<bind::Segment>(&g, t, &p),
        m => {
            eprintln!("unknown machine {m}");
            std::process::exit(2);
        }
    };
    report(r.histories, &r.all);
}

fn report(cases: u64, all: &[Ctx]) {
    let mut fails: Vec<Fail> = all.iter().flat_map(|c| c.fails.clone()).collect();
    fails.sort_by_key(|f| (f.case.len(), f.case.clone()));
    fails.truncate(20);
    let samples: Vec<String> = all.iter().flat_map(|c| c.samples.clone()).take(3).collect();
    result(cases, all.iter().map(|c| c.execs).sum(), all.iter().map(|c| c.fail_count).sum(), &fails, &samples);
}

fn main() {
    let (cmd, a) = Args::parse();
    std::panic::set_hook(Box::new(|_| {}));
    *OUT.lock().unwrap() = Some(a.opt("out", "/dev/stderr"));
    ctx::watchdog(30_000, hung);
    match cmd.as_str() {
        "replay" => replay(&a),
        "walk" => walk_machine(&a),
        "record" => record(&a),
        _ => {
            eprintln!("usage: rv replay ...");
            std::process::exit(2);
        }
    }
}
