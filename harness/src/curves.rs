//! Replays of specified intersections of line segments, circles and arcs (CaseSegSeg,
//! CaseSegCirc, CaseCircCirc, CaseArc) into `segment_2_segment_2` and the pairwise functions.
use crate::ctx::{Ctx, Rng};
use crate::lift::*;
use crate::val::Val;
use rcgal::algorithm::intersection::{
    segment_2_segment_2::*,
};
use rcgal::kernel::{
    arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, line_segment_2::LineSegment2,
    number_type::NumberType, point_2::Point2, segment_2::Segment2,
};

pub const DIRS: [(f64, f64); 16] = [
    (1., 0.), (1., 1.), (0., 1.), (-1., 1.), (-1., 0.), (-1., -1.), (0., -1.), (1., -1.),
    (2., 1.), (1., 2.), (-1., 2.), (-2., 1.), (-2., -1.), (-1., -2.), (1., -2.), (2., -1.),
];
pub fn dir(i: &Val) -> (f64, f64) {
    DIRS[(i.int() - 1) as usize]
}

/// A curve of the specification: squared radii, directions instead of angles.
#[derive(Clone, Copy, Debug)]
pub enum Cv {
    L((f64, f64), (f64, f64)),
    C((f64, f64), f64),
    A((f64, f64), f64, (f64, f64), (f64, f64)),
}

#[derive(Clone, Copy, Debug)]
pub enum Obj<T: NumberType> {
    L(LineSegment2<T>),
    C(CircleSegment2<T>),
    A(ArcSegment2<T>),
}

/// Angle of a direction in [0, 2pi), from the axes and diagonals exactly as a user writes them.
pub fn angle(v: (f64, f64)) -> f64 {
    let a = v.1.atan2(v.0);
    if a < 0.0 { a + 2.0 * std::f64::consts::PI } else { a }
}

/// The arguments a user gives to make a curve.
#[derive(Clone, Copy, Debug)]
pub enum Raw {
    /// source, target
    L((f64, f64), (f64, f64)),
    /// centre, radius
    C((f64, f64), f64),
    /// centre, radius, angles
    A((f64, f64), f64, f64, f64),
}
impl Raw {
    pub fn make<T: NumberType>(&self) -> Obj<T> {
        let f = T::from_f64;
        let pt = |p: (f64, f64)| Point2::new(f(p.0), f(p.1));
        match *self {
            Raw::L(p, q) => Obj::L(LineSegment2::new(pt(p), pt(q))),
            Raw::C(c, r) => Obj::C(CircleSegment2::new(pt(c), f(r))),
            Raw::A(c, r, a, b) => Obj::A(ArcSegment2::new(CircleSegment2::new(pt(c), f(r)), f(a), f(b))),
        }
    }
}

impl Cv {
    /// `turns` adds whole turns to the angles of an arc, `rev` reverses a line segment.
    pub fn raw(&self, l: &Lift, rev: bool, turns: (i64, i64)) -> Raw {
        match *self {
            Cv::L(p, q) => {
                let (p, q) = if rev { (q, p) } else { (p, q) };
                Raw::L(l.p(p), l.p(q))
            }
            Cv::C(c, k) => Raw::C(l.p(c), k.sqrt() * l.scale()),
            Cv::A(c, k, u, w) => {
                let (u, w) = if l.mirrored() { (w, u) } else { (u, w) };
                let (a, mut b) = (angle(l.v(u)), angle(l.v(w)));
                let two_pi = 2.0 * std::f64::consts::PI;
                if b < a + 1e-12 {
                    b += two_pi;
                }
                Raw::A(l.p(c), k.sqrt() * l.scale(), a + turns.0 as f64 * two_pi, b + turns.1 as f64 * two_pi)
            }
        }
    }
    pub fn make<T: NumberType>(&self, l: &Lift, rev: bool, turns: (i64, i64)) -> Obj<T> {
        self.raw(l, rev, turns).make()
    }
}

macro_rules! dispatch {
    ($f:ident, $a:expr, $b:expr) => {
        match ($a, $b) {
            (Obj::L(x), Obj::L(y)) => $f(x, y),
            (Obj::L(x), Obj::C(y)) => $f(x, y),
            (Obj::L(x), Obj::A(y)) => $f(x, y),
            (Obj::C(x), Obj::L(y)) => $f(x, y),
            (Obj::C(x), Obj::C(y)) => $f(x, y),
            (Obj::C(x), Obj::A(y)) => $f(x, y),
            (Obj::A(x), Obj::L(y)) => $f(x, y),
            (Obj::A(x), Obj::C(y)) => $f(x, y),
            (Obj::A(x), Obj::A(y)) => $f(x, y),
        }
    };
}

pub fn intersect<T: NumberType>(a: &Obj<T>, b: &Obj<T>) -> Vec<Point2<T>> {
    dispatch!(segment_2_segment_2_intersection, a, b)
}
pub fn intersected<T: NumberType>(a: &Obj<T>, b: &Obj<T>) -> bool {
    dispatch!(is_segment_2_segment_2_intersected, a, b)
}
pub fn rat(v: &Val) -> (f64, f64) {
    let d = v.at(2).f();
    (v.at(0).f() / d, v.at(1).f() / d)
}
pub fn surd(v: &Val) -> (f64, f64) {
    let r = v.at(4).f().sqrt();
    let s = v.at(5).f();
    ((v.at(0).f() + v.at(1).f() * r) / s, (v.at(2).f() + v.at(3).f() * r) / s)
}

/// What the specification says about a pair of curves.
pub struct Pair {
    pub a: Cv,
    pub b: Cv,
    pub points: Vec<(f64, f64)>,
    /// The curves lie on one circle: only a pair of arcs is specified then.
    pub unspecified: bool,
}

pub fn decode(fam: &str, c: &Val) -> Pair {
    let (i, o) = (c.at(0), c.at(1));
    let z = (0.0, 0.0);
    match fam {
        "segseg" => Pair {
            a: Cv::L(i.at(0).pt(), i.at(1).pt()),
            b: Cv::L(i.at(2).pt(), i.at(3).pt()),
            points: o.at(0).items().iter().map(rat).collect(),
            unspecified: false,
        },
        "segcirc" => Pair {
            a: Cv::L(i.at(0).pt(), i.at(1).pt()),
            b: Cv::C(z, i.at(2).at(0).f()),
            points: o.at(0).items().iter().map(surd).collect(),
            unspecified: false,
        },
        "circcirc" => Pair {
            a: Cv::C(z, i.at(0).at(0).f()),
            b: Cv::C(i.at(1).pt(), i.at(2).at(0).f()),
            points: o.at(0).items().iter().map(surd).collect(),
            unspecified: o.at(1).bool(),
        },
        "arc" => {
            let kind = i.at(0).at(0).int();
            let a = Cv::A(z, i.at(1).at(0).f(), dir(i.at(1).at(1)), dir(i.at(1).at(2)));
            let same = o.at(1).bool();
            let mut points: Vec<(f64, f64)> = o.at(0).items().iter().map(surd).collect();
            let r = i.at(1).at(0).f().sqrt();
            for d in o.at(2).items() {
                let d = d.pt();
                let n = (d.0 * d.0 + d.1 * d.1).sqrt();
                points.push((r * d.0 / n, r * d.1 / n));
            }
            let b = match kind {
                1 => Cv::L(i.at(2).pt(), i.at(3).pt()),
                2 => Cv::C(i.at(2).pt(), i.at(3).at(0).f()),
                _ => Cv::A(i.at(2).pt(), i.at(3).at(0).f(), dir(i.at(3).at(1)), dir(i.at(3).at(2))),
            };
            Pair { a, b, points, unspecified: same && kind == 2 }
        }
        _ => panic!("HARNESS: family {fam}"),
    }
}

/// Whole turns to add to the angles of an arc; none most of the time.
pub fn turn(r: &mut Rng, c: &Cv) -> (i64, i64) {
    let t = match r.below(8) {
        0 => (1, 1),
        1 => (-1, -1),
        2 => (1, 0),
        3 => (0, 1),
        _ => (0, 0),
    };
    match c {
        // different turns only make sense when they do not turn the arc into a full circle
        Cv::A(_, _, u, w) if (u.0 * w.1 - u.1 * w.0).abs() < 1e-9 && t.0 != t.1 => (1, 1),
        _ => t,
    }
}

fn one(ctx: &mut Ctx, p: &Pair, l: &Lift, exact: bool, consistent: bool) {
    let mut r = Rng::new(ctx.rng.next());
    let exp: Vec<(f64, f64)> = p.points.iter().map(|q| l.p(*q)).collect();
    let (rev_a, rev_b) = (r.below(2) == 1, r.below(2) == 1);
    let (ta, tb) = (turn(&mut r, &p.a), turn(&mut r, &p.b));
    let a: Obj<f64> = p.a.make(l, rev_a, ta);
    let b: Obj<f64> = p.b.make(l, rev_b, tb);
    let d = || format!("{a:?} with {b:?}");
    let calls = ctx.call(|| {
        let (g, h) = (intersect(&a, &b), intersect(&b, &a));
        let (x, y) = (intersected(&a, &b), intersected(&b, &a));
        (g, h, x, y)
    });
    let (g, h, x, y) = match calls {
        Ok(v) => v,
        Err(e) => {
            ctx.fail(format!("{}: {e}", d()));
            return;
        }
    };
    let g: Vec<_> = g.iter().map(xy).collect();
    let h: Vec<_> = h.iter().map(xy).collect();
    if exact && !p.unspecified {
        ctx.check(same_set(&g, &exp, TOL), || format!("{}: intersection {g:?}, specified {exp:?}", d()));
        ctx.check(same_set(&h, &exp, TOL), || {
            format!("{} (exchanged): intersection {h:?}, specified {exp:?}", d())
        });
        let e = !exp.is_empty();
        ctx.check(x == e && y == e, || {
            format!("{}: predicate {x}, exchanged {y}, specified {e}", d())
        });
    }
    if consistent {
        ctx.check(same_set(&g, &h, TOL), || {
            format!("{}: intersection {g:?}, exchanged {h:?}", d())
        });
        ctx.check(x == !g.is_empty() && y == x, || {
            format!("{}: predicate {x}, exchanged {y}, points {g:?}", d())
        });
    }
}

/// Two line segments in single precision.
fn single(ctx: &mut Ctx, p: &Pair, l: &Lift, consistent: bool) {
    let exp: Vec<(f64, f64)> = p.points.iter().map(|q| l.p(*q)).collect();
    let a: Obj<f32> = p.a.make(l, false, (0, 0));
    let b: Obj<f32> = p.b.make(l, false, (0, 0));
    let r = ctx.call(|| {
        let g: Vec<_> = intersect(&a, &b).iter().map(xy).collect();
        let h: Vec<_> = intersect(&b, &a).iter().map(xy).collect();
        (g, h, intersected(&a, &b), intersected(&b, &a))
    });
    let tol = 1e-4;
    let ok = r.as_ref().is_ok_and(|(g, h, x, y)| {
        if consistent { same_set(g, h, tol) && *x != g.is_empty() && x == y } else { same_set(g, &exp, tol) && *x != exp.is_empty() }
    });
    ctx.check(ok, || format!("{a:?} with {b:?}: (points, exchanged, predicate, exchanged) {r:?}, specified {exp:?}"));
}

pub fn check(ctx: &mut Ctx, fam: &str, c: &Val, mode: &str) {
    let p = decode(fam, c);
    let mut r = Rng::new(ctx.rng.next());
    let mut lifts = if ctx.tier > 0 { Lift::all(&mut r, 3) } else { Lift::some(&mut r, 1) };
    if r.below(4) == 0 {
        lifts.push(Lift::skew(&mut r));
    }
    lifts.extend(Lift::extreme_of(&mut r, if fam == "segseg" { c.at(0).reach() } else { 0.0 }));
    for l in &lifts {
        one(ctx, &p, l, mode != "consistent", mode == "consistent");
    }
    if let ("segseg", Cv::L(a, b), Cv::L(u, v)) = (fam, p.a, p.b) {
        let l = lifts[lifts.len() - 1];
        for l in [lifts[0], l] {
            if crate::shapes::small(&[a, b, u, v], &l) {
                single(ctx, &p, &l, mode == "consistent");
            }
        }
    }
    ctx.sample(|| format!("{:?} with {:?} -> {:?}", p.a, p.b, p.points));
}

/// Segment2 as an object: used by other modules to read an arc's ends.
pub fn ends<T: NumberType + Into<f64>>(o: &Obj<T>) -> Vec<(f64, f64)> {
    match o {
        Obj::L(s) => vec![xy(&s.source()), xy(&s.target())],
        Obj::C(_) => vec![],
        Obj::A(s) => vec![xy(&s.source()), xy(&s.target())],
    }
}
