//! Replays of specified sets of curves into the sweep (CaseSweep), over histories of pushes and
//! queries.
use crate::ctx::{Ctx, Rng};
use crate::curves::{dir, surd, turn, Cv, Obj};
use crate::lift::*;
use crate::val::Val;
use rcgal::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;

type P2 = (f64, f64);

pub fn curve(c: &Val) -> Cv {
    let f = |i: usize| c.at(i).f();
    match c.at(0).int() {
        1 => Cv::L((f(1), f(2)), (f(3), f(4))),
        2 => Cv::C((f(1), f(2)), f(3)),
        _ => Cv::A((f(1), f(2)), f(3), dir(c.at(4)), dir(c.at(5))),
    }
}

/// Distance in length and, for an arc, whether the direction is within its range.
pub fn on(c: &Cv, l: &Lift, p: P2) -> bool {
    const T: f64 = 1e-6;
    let d = |a: P2, b: P2| ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt();
    match *c {
        Cv::L(a, b) => {
            let (a, b) = (l.p(a), l.p(b));
            (d(a, p) + d(p, b) - d(a, b)).abs() < T
        }
        Cv::C(c, k) => (d(l.p(c), p) - k.sqrt() * l.scale()).abs() < T,
        Cv::A(c, k, u, w) => {
            let q = l.p(c);
            if (d(q, p) - k.sqrt() * l.scale()).abs() > T {
                return false;
            }
            let (u, w) = if l.mirrored() { (l.v(w), l.v(u)) } else { (l.v(u), l.v(w)) };
            let v = (p.0 - q.0, p.1 - q.1);
            let ang = |a: P2, b: P2| {
                let r = (a.0 * b.1 - a.1 * b.0).atan2(a.0 * b.0 + a.1 * b.1);
                if r < -T { r + 2.0 * std::f64::consts::PI } else { r.max(0.0) }
            };
            let full = ang(u, w) < T;
            full || ang(u, v) <= ang(u, w) + T || ang(u, v) > 2.0 * std::f64::consts::PI - T
        }
    }
}

pub fn union(pairs: &[(usize, usize, Vec<P2>)], live: &[bool], l: &Lift) -> Vec<P2> {
    let mut u: Vec<P2> = vec![];
    for (i, j, ps) in pairs {
        if live[*i] && live[*j] {
            for p in ps {
                let q = l.p(*p);
                if !u.iter().any(|x| close(*x, q, 1e-7)) {
                    u.push(q);
                }
            }
        }
    }
    u
}

pub fn check(ctx: &mut Ctx, c: &Val, mode: &str) {
    let cs: Vec<Cv> = c.at(0).items().iter().map(curve).collect();
    let n = cs.len();
    let mut pairs = vec![];
    let mut same = vec![];
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            let e = c.at(1).at(0).at(k);
            k += 1;
            pairs.push((i, j, e.at(0).items().iter().map(surd).collect::<Vec<P2>>()));
            if e.at(1).bool() {
                same.push((i, j));
            }
        }
    }
    if mode == "single" || mode == "ends" {
        single(ctx, &cs, mode == "single", &union(&pairs, &vec![true; n], &Lift::id()));
        return;
    }
    let mut r = Rng::new(ctx.rng.next());
    let mut lifts = if ctx.tier > 0 { Lift::all(&mut r, 2) } else { Lift::some(&mut r, 1) };
    if r.below(3) == 0 {
        lifts.push(Lift::skew(&mut r));
    }
    let lines = |c: &Val| if c.at(0).int() == 1 { c.ints()[1..].iter().map(|x| x.abs()).max().unwrap() } else { 0 };
    let reach = if cs.iter().all(|c| matches!(c, Cv::L(..))) { c.at(0).items().iter().map(lines).max().unwrap_or(0) } else { 0 };
    // crossings of three long segments may be closer than the tolerance when these are made small
    if cs.len() == 2 || reach < 100 {
        lifts.extend(Lift::extreme_of(&mut r, reach as f64));
    }
    for l in &lifts {
        session(ctx, &mut r, l, &cs, &pairs, &same);
    }
    ctx.sample(|| format!("{cs:?} -> {:?}", union(&pairs, &vec![true; n], &Lift::id())));
}

/// In single precision: as given the specified points (when `exact`), and at any size an answer.
fn single(ctx: &mut Ctx, cs: &[Cv], exact: bool, exp: &[P2]) {
    let objs: Vec<Obj<f32>> = cs.iter().map(|c| c.make(&Lift::id(), false, (0, 0))).collect();
    let ask = |ctx: &mut Ctx, objs: &Vec<Obj<f32>>| ctx.call(|| {
        let mut s: SweepSegment2Intersection<f32> = SweepSegment2Intersection::new();
        for o in objs {
            match o {
                Obj::L(x) => s.push_segment(x),
                Obj::C(x) => s.push_segment(x),
                Obj::A(x) => s.push_segment(x),
            }
        }
        s.intersection().iter().map(xy).collect::<Vec<P2>>()
    });
    let r = ask(ctx, &objs);
    for s in [1.0 / 7.0, 0.1, 11.3] {
        let l = Lift { s, ..Lift::id() };
        let objs: Vec<Obj<f32>> = cs.iter().map(|c| c.make(&l, false, (0, 0))).collect();
        if let Err(e) = ask(ctx, &objs) {
            ctx.fail(format!("{objs:?} in single precision: {e}"));
        }
    }
    ctx.check(r.as_ref().is_ok_and(|g| !exact || same_set(g, exp, 1e-4)), || format!("{objs:?} in single precision: {r:?}, specified {exp:?}"));
}

fn session(ctx: &mut Ctx, r: &mut Rng, l: &Lift, cs: &[Cv], pairs: &[(usize, usize, Vec<P2>)], same: &[(usize, usize)]) {
    let n = cs.len();
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let objs: Vec<Obj<f64>> = cs
        .iter()
        .map(|c| {
            let t = turn(r, c);
            c.make(l, r.below(2) == 1, t)
        })
        .collect();
    let mut live = vec![false; n];
    // after which pushes to ask, and how often
    let early = r.below(3) == 0;
    let cut = r.below(n as u64) as usize;
    let mut sweep: SweepSegment2Intersection<f64> = SweepSegment2Intersection::new();
    let mut said = String::new();
    for (step, i) in order.iter().enumerate() {
        let o = objs[*i];
        let s = &mut sweep;
        let p = ctx.call(move || match o {
            Obj::L(x) => s.push_segment(&x),
            Obj::C(x) => s.push_segment(&x),
            Obj::A(x) => s.push_segment(&x),
        });
        said.push_str(&format!(" push {o:?};"));
        if let Err(e) = p {
            ctx.fail(format!("{said} {e}"));
            return;
        }
        live[*i] = true;
        let times = if step + 1 == n { 1 + r.below(2) } else if early && step == cut { 1 } else { 0 };
        for _ in 0..times {
            let s = &mut sweep;
            let g = match ctx.call(move || s.intersection()) {
                Ok(g) => g,
                Err(e) => {
                    ctx.fail(format!("{said} intersection: {e}"));
                    return;
                }
            };
            said.push_str(" intersection;");
            let got: Vec<P2> = g.iter().map(xy).collect();
            let exp = union(pairs, &live, l);
            let missing: Vec<&P2> = exp.iter().filter(|e| !got.iter().any(|g| close(**e, *g, TOL))).collect();
            let extra: Vec<&P2> = got
                .iter()
                .filter(|g| !exp.iter().any(|e| close(*e, **g, TOL)))
                .filter(|g| !same.iter().any(|(i, j)| live[*i] && live[*j] && on(&cs[*i], l, **g) && on(&cs[*j], l, **g)))
                .collect();
            let dup = (0..got.len()).any(|i| (0..i).any(|j| close(got[i], got[j], TOL)));
            if !ctx.check(missing.is_empty() && extra.is_empty() && !dup, || {
                format!("{said} returned {got:?}; specified {exp:?}; missing {missing:?}; not common to two curves {extra:?}; repeated {dup}")
            }) {
                return;
            }
        }
    }
}
