//! Records what the code does, for TLC to judge.
use crate::ctx::{Ctx, Rng};
use crate::lift::*;
use crate::machines::{cmps, listed, HalfEdge, Key, Queue, Ring};
use crate::val::{parse, Val};
use crate::walk::Machine;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::data_structure::avl_tree::{AVLTree, AVLTreeOption};
use rcgal::kernel::polygon_2::Polygon2;
use rcgal::kernel::point_2::Point2;
use std::collections::BTreeSet;

fn json(v: &Val) -> String {
    v.to_string().replace("<<", "[").replace(">>", "]")
}

/// Histories of the tree: keys and operations from several distributions.
pub fn tree(ctx: &mut Ctx, count: u64, len: u64, out: &mut Vec<String>) {
    for c in 0..count {
        let mut rng = Rng::new(ctx.rng.next());
        let bag = c % 3 == 2;
        let len = if bag { len / 2 } else { len };
        let mut t = AVLTree::new(if bag { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode });
        let kind = (c / 3) % 8;
        let range = if bag { 1 + (len as i64) / 4 } else { 2 * len as i64 };
        let mut live: Vec<i64> = vec![];
        let mut steps = vec![];
        let name = format!("tree {c} kind {kind} bag {bag}");
        ctx.begin(&name);
        let mut tag = 0;
        for i in 0..len {
            let n = live.len() as i64;
            // grow, then hold, then shrink
            let grow = match i * 4 / len {
                0 | 1 => 9,
                2 => 5,
                _ => 2,
            };
            let ins = n == 0 || rng.below(10) < grow;
            let k = match kind {
                0 => i as i64,                                           // ascending
                1 => 2 * len as i64 - i as i64,                          // descending
                2 => if i % 2 == 0 { i as i64 } else { 2 * len as i64 - i as i64 }, // inside out
                3 => len as i64 + if i % 2 == 0 { i as i64 / 2 } else { -(i as i64) / 2 }, // outwards
                4 => (i as i64 * 7919) % (2 * len as i64),
                5 => (i as i64 / 8) * 8 + 7 - (i as i64 % 8),
                _ => rng.range(0, range),
            };
            let k = if bag { k.rem_euclid(range) } else { k };
            let mut sorted = live.clone();
            let (op, k) = if rng.below(400) == 0 && i > len / 2 {
                (3, 0)
            } else if ins {
                (1, k)
            } else if rng.below(8) == 0 {
                (2, rng.range(-1, range + 1)) // perhaps absent
            } else {
                sorted.sort();
                let j = match kind {
                    0 => 0,
                    1 => sorted.len() - 1,
                    2 => sorted.len() / 2,
                    3 => if i % 2 == 0 { 0 } else { sorted.len() - 1 },
                    _ => rng.below(sorted.len() as u64) as usize,
                };
                (2, sorted[j])
            };
            tag += 1;
            cmps();
            let r = ctx.call(|| match op {
                1 => t.insert(Key { k, tag }),
                2 => t.delete(Key { k, tag: 0 }),
                _ => t.clear(),
            });
            let used = cmps();
            if let Err(e) = r {
                ctx.case = format!("{name}: [{}, [{}]]", if bag { 2 } else { 1 }, steps.join(","));
                ctx.fail(e);
                break;
            }
            match op {
                1 => if bag || !live.contains(&k) { live.push(k) },
                2 => if let Some(j) = live.iter().position(|x| *x == k) { live.remove(j); },
                _ => live.clear(),
            }
            let look = bag || live.len() < 12 || i % 40 == 0 || i + 1 == len;
            let l = if look { json(&listed(&t)) } else { "[]".into() };
            steps.push(format!("[{op},{k},{tag},{used},{look},{l}]"));
        }
        ctx.end();
        ctx.sample(|| format!("{name}: {}", steps[..6.min(steps.len())].join(",")));
        out.push(format!("[{},[{}]]", if bag { 2 } else { 1 }, steps.join(",")));
    }
}

/// Histories chosen against the tree: the next key goes where reaching it takes the most
/// comparisons, keys are removed where it takes the fewest.  Keys are recorded by rank.
pub fn against(ctx: &mut Ctx, count: u64, len: u64, out: &mut Vec<String>) {
    for c in 0..count {
        let mut rng = Rng::new(ctx.rng.next());
        let name = format!("tree against {c}");
        ctx.begin(&name);
        let mut t = AVLTree::new(AVLTreeOption::DisableSameNode);
        let mut live: Vec<i64> = vec![];
        let mut did: Vec<(i64, i64, u64, Option<Vec<i64>>)> = vec![];
        let probes = [4, 12, 40][(c % 3) as usize];
        let hold = c % 2 == 1;
        for i in 0..len {
            let cost = |t: &mut AVLTree<Key>, k: i64| {
                cmps();
                t.delete(Key { k, tag: 0 });
                cmps()
            };
            let mut best: Option<(u64, usize, i64)> = None;
            let mut least: Option<(u64, usize)> = None;
            let mut failed = None;
            for _ in 0..probes {
                let g = rng.below(live.len() as u64 + 1) as usize;
                let lo = if g == 0 { -(1i64 << 61) } else { live[g - 1] };
                let hi = if g == live.len() { 1i64 << 61 } else { live[g] };
                if hi - lo < 2 {
                    continue;
                }
                let k = lo + (hi - lo) / 2;
                match ctx.call(|| cost(&mut t, k)) {
                    Err(e) => failed = Some(e),
                    Ok(n) => {
                        if best.map_or(true, |b| n > b.0) {
                            best = Some((n, g, k));
                        }
                        if !live.is_empty() && least.map_or(true, |b| n < b.0) {
                            least = Some((n, g.min(live.len() - 1)));
                        }
                    }
                }
            }
            let shrink = !live.is_empty() && (hold && i > len / 2 && i % 2 == 0 || best.is_none());
            cmps();
            let (op, k, r) = if shrink {
                let j = least.map_or(0, |l| l.1);
                let k = live.remove(j);
                (2, k, ctx.call(|| t.delete(Key { k, tag: 0 })))
            } else {
                let (_, g, k) = best.unwrap_or((0, 0, 0));
                live.insert(g, k);
                (1, k, ctx.call(|| t.insert(Key { k, tag: 1 })))
            };
            let used = cmps();
            if let Some(e) = failed.or(r.err()) {
                ctx.fail(format!("{name}: {e} after {did:?}"));
                break;
            }
            let look = live.len() < 12 || i % 40 == 0 || i + 1 == len;
            let l = look.then(|| t.mid_order_traversal().iter().map(|x| x.k).collect());
            did.push((op, k, used, l));
        }
        ctx.end();
        let mut all: Vec<i64> = did.iter().flat_map(|d| d.3.iter().flatten().chain([&d.1])).copied().collect();
        all.sort();
        all.dedup();
        let rank = |k: &i64| all.binary_search(k).unwrap();
        let steps: Vec<String> = did
            .iter()
            .map(|(op, k, used, l)| {
                let x: Vec<String> = l.iter().flatten().map(|k| format!("[{},1]", rank(k))).collect();
                format!("[{op},{},1,{used},{},[{}]]", rank(k), l.is_some(), x.join(","))
            })
            .collect();
        ctx.sample(|| format!("{name}: {}", steps[..6.min(steps.len())].join(",")));
        if std::env::var("RV_SHOW").is_ok() {
            eprintln!("{name}: {} steps, live {}, most comparisons {}", did.len(), live.len(), did.iter().map(|d| d.2).max().unwrap_or(0));
        }
        out.push(format!("[1,[{}]]", steps.join(",")));
    }
}

/// Bulk histories of the tree, recorded as progressions of keys.  Some leave a small tree where
/// a large one was, in the places where it was deepest.
pub fn bulk(ctx: &mut Ctx, bits: u32, out: &mut Vec<String>) {
    let n = 1i64 << bits;
    // (operation, first, stride, count)
    let mut all: Vec<(&str, bool, Vec<(i64, i64, i64, i64)>)> = vec![];
    let probe = |v: &mut Vec<(i64, i64, i64, i64)>, ks: &[i64]| {
        for k in ks {
            v.push((1, *k, 0, 1));
            v.push((2, *k, 0, 1));
        }
    };
    // all but the right, the left, and a winding path of a complete tree
    let (mut right, mut left, mut winding) = (vec![(1, 1, 1, n - 1)], vec![(1, n - 1, -1, n - 1)], vec![(1, 1, 1, n - 1)]);
    let mut on = vec![0i64; bits as usize];
    let (mut k, mut side) = (n / 2, 1);
    for j in (0..bits).rev() {
        on[j as usize] = k;
        k += side * (1i64 << j) / 2;
        side = -side;
    }
    for j in 0..bits {
        let (a, d) = (1i64 << j, 2i64 << j);
        let c = n / d;
        right.push((2, a, d, c - 1));
        left.push((2, n - a, -d, c - 1));
        let w = (on[j as usize] - a) / d;
        winding.push((2, a, d, w));
        winding.push((2, a + (w + 1) * d, d, c - 1 - w));
        if j > bits / 2 {
            // looked for in vain: nothing may change, and it walks the whole path
            right.push((2, n + 5, 0, 1));
            left.push((2, -5, 0, 1));
            let below = on[0] + if on[0] > on[1] { 1 } else { -1 };
            winding.push((2, below, 0, 1));
        }
    }
    probe(&mut right, &[n + 5, n + 6, -1, n / 2 + 1]);
    probe(&mut left, &[-5, 0, n + 5, n / 2 + 1]);
    all.push(("right path", false, right));
    all.push(("left path", false, left));
    all.push(("winding path", false, winding));
    // interleaved, then from both ends and from the middle
    let m = n / 16;
    for kind in 0..4 {
        let mut v = vec![];
        for o in [3, 0, 5, 1, 6, 2, 4] {
            v.push((1, o, 7, m / 7));
        }
        v.push((1, 0, 1, m)); // most of them are there
        match kind {
            0 => v.push((2, 0, 1, m - 9)),
            1 => v.push((2, m - 1, -1, m - 9)),
            2 => {
                v.push((2, m / 2, 1, m / 2 - 5));
                v.push((2, m / 2 - 1, -1, m / 2 - 5));
            }
            _ => {
                for o in [2, 6, 0, 4, 1, 5] {
                    v.push((2, o, 7, m / 7 + 1));
                }
                v.push((2, 3, 7, m / 7 - 6));
            }
        }
        probe(&mut v, &[-7, 3 * m, m / 2, m / 3]);
        v.push((2, 0, 1, m));
        v.push((1, m, -3, m / 3));
        all.push(("interleaved", false, v));
    }
    // few keys, many times each
    let t = n / 64;
    for order in [[0, 1, 2, 3, 4, 5, 6, 7], [7, 6, 5, 4, 3, 2, 1, 0], [4, 4, 2, 6, 0, 5, 4, 1]] {
        let mut v = vec![];
        for k in order {
            v.push((1, k, 0, t));
        }
        v.push((2, 4, 0, t - 2));
        v.push((1, 0, 1, 8));
        for k in [1, 6, 0, 7] {
            v.push((2, k, 0, t + 9));
        }
        v.push((2, 4, 0, 1));
        v.push((2, 2, 0, t));
        v.push((1, 3, 0, 2));
        v.push((2, 5, 0, t - 3));
        v.push((2, 3, 0, t - 3));
        all.push(("equal keys", true, v));
    }
    for (name, bag, v) in all {
        ctx.begin(name);
        let mut t = AVLTree::new(if bag { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode });
        let mut held: std::collections::BTreeMap<i64, i64> = Default::default();
        let mut size = 0i64;
        let mut steps = vec![];
        for (op, first, stride, count) in v {
            let mut work: std::collections::BTreeMap<u32, u64> = Default::default();
            let mut failed = None;
            for j in 0..count {
                let k = first + j * stride;
                cmps();
                let r = ctx.call(|| match op {
                    1 => t.insert(Key { k, tag: 0 }),
                    _ => t.delete(Key { k, tag: 0 }),
                });
                let used = cmps();
                if let Err(e) = r {
                    failed = Some(e);
                    break;
                }
                let b = 64 - (size as u64 + 1).leading_zeros();
                let w = work.entry(b).or_insert(0);
                *w = used.max(*w);
                let h = held.entry(k).or_insert(0);
                if op == 1 && (bag || *h == 0) {
                    *h += 1;
                    size += 1;
                } else if op == 2 && *h > 0 {
                    *h -= 1;
                    size -= 1;
                }
            }
            let l = match failed {
                Some(e) => Err(e),
                None => ctx.call(|| t.mid_order_traversal().iter().map(|x| x.k).collect::<Vec<i64>>()),
            };
            let l = match l {
                Ok(l) => l,
                Err(e) => {
                    ctx.fail(format!("{name}: {e} in step {} of {steps:?}", steps.len() + 1));
                    break;
                }
            };
            let w: Vec<String> = work.iter().map(|(b, c)| format!("[{b},{c}]")).collect();
            let look = l.len() < 5000;
            let x: Vec<String> = l.iter().filter(|_| look).map(|k| k.to_string()).collect();
            steps.push(format!("[{op},{first},{stride},{count},[{}],{},{look},[{}]]", w.join(","), l.len(), x.join(",")));
        }
        ctx.end();
        ctx.sample(|| format!("{name}: {} steps", steps.len()));
        out.push(format!("[{},[{}]]", if bag { 2 } else { 1 }, steps.join(",")));
    }
}

/// Triangulates every polygon from every starting vertex in both orientations and in several
/// places; the distinct triangulations, in terms of the given vertices, are recorded.
pub fn earcut(ctx: &mut Ctx, p: &[(f64, f64)], simple: bool, text: &str, full: bool) -> Vec<String> {
    let n = p.len();
    let mut seen: BTreeSet<Vec<[usize; 3]>> = BTreeSet::new();
    let mut refused = false;
    let mut out = vec![];
    for start in 0..n {
        for rev in [false, true] {
            if !full && start > 1 && ctx.rng.below(n as u64) > 1 {
                continue;
            }
            let order: Vec<usize> = (0..n).map(|i| if rev { (start + n - i) % n } else { (start + i) % n }).collect();
            let lifts = if full { Lift::all(&mut ctx.rng, 1) } else { Lift::some(&mut ctx.rng, 0) };
            for l in lifts {
                let near = p.iter().map(|q| l.p(*q)).all(|q| q.0.abs() <= 12.0 && q.1.abs() <= 12.0);
                let r = if ctx.rng.below(4) == 0 && (simple || near) {
                    let v: Vec<Point2<f32>> = order.iter().map(|i| l.pt(p[*i])).collect();
                    ctx.call(|| earcut_2(Polygon2::new(v)))
                } else {
                    let v: Vec<Point2<f64>> = order.iter().map(|i| l.pt(p[*i])).collect();
                    ctx.call(|| earcut_2(Polygon2::new(v)))
                };
                match r {
                    Err(_) if !simple => refused = true,
                    Err(e) => {
                        ctx.fail(format!("{e} (vertex order {order:?}, {l:?})"));
                        return out;
                    }
                    Ok(t) => {
                        if t.iter().any(|x| x.len() != 3 || x.iter().any(|i| *i >= n)) {
                            ctx.fail(format!("not triangles of the vertices: {t:?} (vertex order {order:?}, {l:?})"));
                            return out;
                        }
                        let mut c: Vec<[usize; 3]> = t
                            .iter()
                            .map(|x| {
                                let mut y = [order[x[0]] + 1, order[x[1]] + 1, order[x[2]] + 1];
                                y.sort();
                                y
                            })
                            .collect();
                        c.sort();
                        seen.insert(c);
                    }
                }
            }
        }
    }
    for c in seen {
        let t: Vec<String> = c.iter().map(|x| format!("[{},{},{}]", x[0], x[1], x[2])).collect();
        let r = format!("[{},[{}],[]]", text.replace("<<", "[").replace(">>", "]"), t.join(","));
        ctx.sample(|| r.clone());
        out.push(r);
    }
    if refused {
        out.push(format!("[{},[],[1]]", text.replace("<<", "[").replace(">>", "]")));
    }
    out
}

/// One history: a machine, its name and the steps recorded so far.
struct History {
    name: String,
    steps: Vec<String>,
}
impl History {
    /// Performs an operation; None when the object failed.
    fn apply<M: Machine>(&mut self, ctx: &mut Ctx, m: &mut M, op: String) -> Option<Val> {
        let v = parse(&op).unwrap();
        match ctx.call(|| m.apply(&v)) {
            Ok(Ok(o)) => return Some(o),
            Ok(Err(e)) | Err(e) => {
                ctx.case = format!("{}: [{}] then {op}", self.name, self.steps.join(","));
                ctx.fail(e);
            }
        }
        None
    }
    fn finish(self, ctx: &mut Ctx, out: &mut Vec<String>) {
        ctx.end();
        ctx.sample(|| format!("{}: {}", self.name, self.steps[..8.min(self.steps.len())].join(",")));
        out.push(format!("[0,[{}]]", self.steps.join(",")));
    }
}

/// What to do at step i of len, growing first and shrinking towards the end, with the object
/// emptied in between now and then.
fn growing(rng: &mut Rng, i: u64, len: u64, waves: u64) -> bool {
    let at = (i * waves) % len * 8 / len;
    rng.below(10) < [10, 9, 9, 8, 5, 3, 1, 0][at as usize]
}

pub fn queue(ctx: &mut Ctx, count: u64, len: u64, out: &mut Vec<String>) {
    for c in 0..count {
        let mut rng = Rng::new(ctx.rng.next());
        let mut h = History { name: format!("queue {c}"), steps: vec![] };
        ctx.begin(&h.name);
        let mut q = Queue::new(&mut rng);
        let (kind, waves) = (c % 7, 1 + (c / 7) % 3);
        let mut last = 0;
        for i in 0..len {
            let (op, p, tag) = if rng.below(600) == 0 {
                (4, 0, 0)
            } else if growing(&mut rng, i, len, waves) {
                let p = match kind {
                    0 => i as i64,
                    1 => -(i as i64),
                    2 => rng.range(0, 3),
                    3 => rng.range(-40, 40),
                    4 => if i % 2 == 0 { i as i64 } else { -(i as i64) },
                    5 => last + rng.range(-2, 2), // around what was popped last, as a sweep pushes
                    _ => rng.range(-100000, 100000),
                };
                (1, p, i as i64)
            } else {
                (2, 0, 0)
            };
            let text = match op {
                1 => format!("<<\"push\", {p}, {tag}>>"),
                2 => "<<\"pop\">>".into(),
                _ => "<<\"clear\">>".into(),
            };
            let Some(o) = h.apply(ctx, &mut q, text) else { break };
            let empty = o.at(1).bool();
            h.steps.push(match op {
                2 if o.at(0).items().is_empty() => format!("[3,0,0,{empty}]"),
                2 => {
                    last = o.at(0).at(0).int();
                    format!("[2,{last},{},{empty}]", o.at(0).at(1).int())
                }
                _ => format!("[{op},{p},{tag},{empty}]"),
            });
        }
        h.finish(ctx, out);
    }
}

pub fn ring(ctx: &mut Ctx, count: u64, len: u64, out: &mut Vec<String>) {
    for c in 0..count {
        let mut rng = Rng::new(ctx.rng.next());
        let mut h = History { name: format!("ring {c}"), steps: vec![] };
        ctx.begin(&h.name);
        let mut m = Ring::new(&mut rng);
        let (kind, waves) = (c % 6, 1 + (c / 6) % 3);
        let mut ring: Vec<i64> = vec![]; // as last observed
        for i in 0..len {
            let n = ring.len();
            let pick = |rng: &mut Rng| match kind {
                0 => n - 1,
                1 => 0,
                2 => [0, n - 1][rng.below(2) as usize],
                3 => (i as usize * 7) % n, // round and round, as ears are cut
                4 => n / 2,
                _ => rng.below(n as u64) as usize,
            };
            let tag = i as i64;
            let (op, at) = if n == 0 {
                (if rng.below(5) == 0 { 4 } else { 1 }, 0)
            } else if rng.below(100) == 0 {
                (4, 0)
            } else {
                let j = pick(&mut rng);
                (if growing(&mut rng, i, len, waves) { 2 } else { 3 }, ring[j])
            };
            let text = match op {
                1 => format!("<<\"first\", {tag}>>"),
                2 => format!("<<\"after\", {at}, {tag}>>"),
                3 => format!("<<\"delete\", {at}>>"),
                _ => "<<\"deletenone\">>".into(),
            };
            let Some(o) = h.apply(ctx, &mut m, text) else { break };
            ring = o.items().iter().map(|x| x.int()).collect();
            let look = ring.len() < 12 || i % 10 == 0 || i + 1 == len;
            h.steps.push(format!("[{op},{at},{tag},{},{look},{}]", ring.len(), if look { json(&o) } else { "[]".into() }));
        }
        h.finish(ctx, out);
    }
}

pub const HALF: (usize, usize) = (6, 20);
pub fn half(ctx: &mut Ctx, count: u64, len: u64, out: &mut Vec<String>) {
    let (nv, ne) = (HALF.0 as u64, HALF.1 as u64);
    for c in 0..count {
        let mut rng = Rng::new(ctx.rng.next());
        let mut h = History { name: format!("half-edges {c}"), steps: vec![] };
        ctx.begin(&h.name);
        let mut m = HalfEdge::<{ HALF.0 }, { HALF.1 }, false>::new(&mut rng);
        // few vertices give many equal edges
        let (few, redirect) = ([nv, 3, nv][(c % 3) as usize], [0, 10, 30][(c / 3 % 3) as usize]);
        for i in 0..len {
            let (op, x, y) = if i < 2 * ne {
                ((3 + i % 2), 1 + i / 2, 1 + rng.below(few))
            } else if rng.below(100) < redirect {
                (3 + rng.below(2), 1 + rng.below(ne), 1 + rng.below(nv))
            } else {
                let add = growing(&mut rng, i, len, 2) || rng.below(3) == 0;
                (if add { 1 } else { 2 }, 1 + rng.below(if c % 2 == 0 { 1 } else { nv }), 1 + rng.below(ne))
            };
            let text = format!("<<\"{}\", {x}, {y}>>", ["add", "remove", "source", "target"][op as usize - 1]);
            let Some(o) = h.apply(ctx, &mut m, text) else { break };
            let v = if op < 3 { x } else { 1 + rng.below(nv) };
            let list = o.at(0).at(v as usize - 1);
            let mut pairs = vec![];
            for _ in 0..if op < 3 { 1 } else { 6 } {
                let (e, f) = (if op < 3 { rng.below(ne) } else { x - 1 }, rng.below(ne));
                let eq = o.at(4).at(e as usize).at(f as usize).bool();
                pairs.push(format!("[{},{},{eq}]", e + 1, f + 1));
            }
            h.steps.push(format!("[{op},{x},{y},{v},true,{},[{}]]", json(list), pairs.join(",")));
        }
        h.finish(ctx, out);
    }
}
