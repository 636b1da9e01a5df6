//! Replays of specified single calls on points, vectors, lines, rays, triangles, polygons,
//! hulls, projections and arcs (CaseLines, CaseLocate, CaseProj, CaseVec, CaseHull, CaseMono,
//! CasePoly).
use crate::ctx::{Ctx, Rng};
use crate::curves::{angle, rat};
use crate::lift::*;
use crate::val::Val;
use rcgal::algorithm::convex_hull::convex_hull_2::ConvexHull2;
use rcgal::algorithm::intersection::{line_2_line_2::*, line_2_ray_2::*, line_segment_2_ray_2::*};
use rcgal::algorithm::location::{
    location_enum::*, point_2_arc_segment_2::*, point_2_circle_segment_2::*, point_2_line_2::*,
    point_2_line_segment_2::*, point_2_polygon_2::*, point_2_ray_2::*, point_2_triangle_2::*,
};
use rcgal::algorithm::projection::{point_2_line_2::*, point_2_line_segment_2::*};
use rcgal::kernel::{
    arc_segment_2::ArcSegment2, circle_segment_2::CircleSegment2, edge_2::Edge2, line_2::Line2,
    line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, polygon_2::Polygon2,
    ray_2::Ray2, segment_2::Segment2, triangle_2::Triangle2, util_enum::*, vector_2::Vector2,
    vertex_2::Vertex2,
};
use std::cmp::Ordering;
use std::f64::consts::PI;

pub trait Num: NumberType + Into<f64> {}
impl Num for f32 {}
impl Num for f64 {}

type P2 = (f64, f64);

/// A line through two points, in one of the ways a user can make it.
fn line<T: Num>(l: &Lift, a: P2, b: P2, how: u64) -> Line2<T> {
    match how % 3 {
        0 => Line2::from_points(&l.pt(a), &l.pt(b)),
        1 => Line2::from_points(&l.pt(b), &l.pt(a)),
        _ => {
            let (p, q) = (l.p(a), l.p(b));
            let k = [1.0, -1.0, 2.0, -0.5][(how / 3 % 4) as usize] / if l.s < 1e-4 { l.s } else { 1.0 };
            let (x, y) = (q.1 - p.1, p.0 - q.0);
            let z = -(x * p.0 + y * p.1);
            Line2::new(T::from_f64(k * x), T::from_f64(k * y), T::from_f64(k * z))
        }
    }
}

fn ray<T: Num>(l: &Lift, a: P2, b: P2) -> Ray2<T> {
    Ray2::new(l.pt(a), l.vec((b.0 - a.0, b.1 - a.1)))
}
fn ray_d<T: Num>(r: &Ray2<T>) -> String {
    format!("ray from {} along {:?}", r.origin(), r.direction())
}

/// Integer coordinates small enough for products of three to be exact in single precision.
pub fn small(ps: &[P2], l: &Lift) -> bool {
    ps.iter().map(|p| l.p(*p)).all(|p| p.0.fract() == 0.0 && p.1.fract() == 0.0 && p.0.abs() <= 32.0 && p.1.abs() <= 32.0)
}
const TOL32: f64 = 1e-4;

/// Of lines with exact coefficients.
fn line_line_32(ctx: &mut Ctx, x: Line2<f32>, y: Line2<f32>, exp: &[P2]) {
    let d = format!("{x:?} with {y:?}");
    let r = ctx.call(|| {
        let f = |o: Option<Point2<f32>>| o.iter().map(xy).collect::<Vec<_>>();
        (f(line_2_line_2_intersection(&x, &y)), f(line_2_line_2_intersection(&y, &x)), is_line_2_line_2_intersected(&x, &y))
    });
    ctx.check(r.as_ref().is_ok_and(|r| same_set(&r.0, exp, TOL32) && same_set(&r.1, exp, TOL32) && r.2 != exp.is_empty()), || {
        format!("{d} (single precision): {r:?}, specified {exp:?}")
    });
}

pub fn lines(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let i = c.at(0);
    let kind = i.at(0).at(0).int();
    let (a, b, p, q) = (i.at(1).pt(), i.at(2).pt(), i.at(3).pt(), i.at(4).pt());
    let exp: Vec<P2> = c.at(1).at(0).items().iter().map(|z| l.p(rat(z))).collect();
    let how = ctx.rng.next() % 60;
    let got: Result<(Vec<Vec<P2>>, Vec<bool>, String), String> = match kind {
        1 => {
            if small(&[a, b, p, q], l) && exp.iter().all(|p| p.0.abs() + p.1.abs() < 100.0) {
                line_line_32(ctx, line(l, a, b, 3 * how + 2), line(l, p, q, 3 * (how / 4) + 2), &exp);
            }
            let x: Line2<f64> = line(l, a, b, how);
            let y: Line2<f64> = line(l, p, q, how / 5);
            let d = format!("{x:?} with {y:?}");
            ctx.call(|| {
                let f = |o: Option<Point2<f64>>| o.iter().map(xy).collect::<Vec<_>>();
                (
                    vec![f(line_2_line_2_intersection(&x, &y)), f(line_2_line_2_intersection(&y, &x))],
                    vec![is_line_2_line_2_intersected(&x, &y), is_line_2_line_2_intersected(&y, &x)],
                    d.clone(),
                )
            })
            .map_err(|e| format!("{d}: {e}"))
        }
        2 => {
            let x: Line2<f64> = line(l, a, b, how);
            let y: Ray2<f64> = ray(l, p, q);
            let d = format!("{x:?} with {}", ray_d(&y));
            ctx.call(|| {
                let o = line_2_ray_2_intersection(&x, &y);
                (
                    vec![o.iter().map(xy).collect()],
                    vec![is_line_2_ray_2_intersected(&x, &y)],
                    d.clone(),
                )
            })
            .map_err(|e| format!("{d}: {e}"))
        }
        _ => {
            let x: LineSegment2<f64> = if how % 2 == 0 {
                LineSegment2::new(l.pt(a), l.pt(b))
            } else {
                LineSegment2::new(l.pt(b), l.pt(a))
            };
            let y: Ray2<f64> = ray(l, p, q);
            let d = format!("{x:?} with {}", ray_d(&y));
            ctx.call(|| {
                let o = line_segment_2_ray_2_intersection(&x, &y);
                (
                    vec![o.iter().map(xy).collect()],
                    vec![is_line_segment_2_ray_2_intersected(&x, &y)],
                    d.clone(),
                )
            })
            .map_err(|e| format!("{d}: {e}"))
        }
    };
    match got {
        Err(e) => ctx.fail(e),
        Ok((sets, flags, d)) => {
            for g in &sets {
                ctx.check(same_set(g, &exp, TOL), || format!("{d}: intersection {g:?}, specified {exp:?}"));
            }
            ctx.check(flags.iter().all(|f| *f != exp.is_empty()), || {
                format!("{d}: predicate {flags:?}, specified {}", !exp.is_empty())
            });
        }
    }
}

pub fn st(v: &Val) -> &str {
    match v {
        Val::S(s) => s,
        v => panic!("HARNESS: not a string {v:?}"),
    }
}
pub fn flip(s: &str, m: bool) -> String {
    match (s, m) {
        ("left", true) => "right".into(),
        ("right", true) => "left".into(),
        _ => s.into(),
    }
}

fn locate_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let i = c.at(0);
    let kind = i.at(0).at(0).int();
    let want = flip(st(c.at(1).at(0)), l.mirrored());
    let how = ctx.rng.next() % 60;
    let f = T::from_f64;
    let (got, flag_ok, d): (Result<String, String>, bool, String) = match kind {
        1 => {
            let x: Line2<T> = line(l, i.at(1).pt(), i.at(2).pt(), how);
            let p: Point2<T> = l.pt(i.at(3).pt());
            let r = ctx.call(|| (locate_point_2_line_2(&p, &x), is_point_2_on_line_2(&p, &x)));
            let d = format!("{p} against {x:?}");
            match r {
                Err(e) => (Err(e), true, d),
                Ok((o, on)) => {
                    let s = if o == Point2Line2Location::On { "on" } else { "off" };
                    (Ok(s.to_string()), on == (want == "on"), d)
                }
            }
        }
        2 => {
            let x: Ray2<T> = ray(l, i.at(1).pt(), i.at(2).pt());
            let p: Point2<T> = l.pt(i.at(3).pt());
            let r = ctx.call(|| (locate_point_2_ray_2(&p, &x), is_point_2_on_ray_2(&p, &x)));
            let d = format!("{p} against {}", ray_d(&x));
            match r {
                Err(e) => (Err(e), true, d),
                Ok((o, on)) => (
                    Ok(match o {
                        Point2Ray2Location::On => "on",
                        Point2Ray2Location::Left => "left",
                        Point2Ray2Location::Right => "right",
                        Point2Ray2Location::Collinear => "collinear",
                    }
                    .to_string()),
                    on == (want == "on"),
                    d,
                ),
            }
        }
        3 => {
            let x: LineSegment2<T> = LineSegment2::new(l.pt(i.at(1).pt()), l.pt(i.at(2).pt()));
            let p: Point2<T> = l.pt(i.at(3).pt());
            let r = ctx.call(|| (locate_point_2_line_segment_2(&p, &x), is_point_2_on_line_segment_2(&p, &x)));
            let d = format!("{p} against {x:?}");
            match r {
                Err(e) => (Err(e), true, d),
                Ok((o, on)) => (
                    Ok(match o {
                        Point2Segment2Location::On => "on",
                        _ if want == "off" => "off",
                        Point2Segment2Location::Left => "left",
                        Point2Segment2Location::Right => "right",
                        Point2Segment2Location::Collinear => "collinear",
                    }
                    .to_string()),
                    on == (want == "on"),
                    d,
                ),
            }
        }
        4 => {
            let k = i.at(2).at(0).f();
            let x = CircleSegment2::new(l.pt(i.at(1).pt()), f(k.sqrt() * l.scale()));
            let p: Point2<T> = l.pt(i.at(3).pt());
            let r = ctx.call(|| (locate_point_2_circle_segment_2(&p, &x), is_point_2_on_circle_segment_2(&p, &x)));
            let d = format!("{p} against {x:?}");
            match r {
                Err(e) => (Err(e), true, d),
                Ok((o, on)) => (
                    Ok(match o {
                        Point2Circle2Location::On => "on",
                        Point2Circle2Location::Inside => "inside",
                        Point2Circle2Location::Outside => "outside",
                    }
                    .to_string()),
                    on == (want == "on"),
                    d,
                ),
            }
        }
        5 => {
            let k = i.at(1).at(0).f();
            let (u, w) = (i.at(2).pt(), i.at(3).pt());
            let (u, w) = if l.mirrored() { (w, u) } else { (u, w) };
            let (a, mut b) = (angle(l.v(u)), angle(l.v(w)));
            if b < a + 1e-12 && how % 2 == 0 {
                b += 2.0 * PI;
            }
            let t = [(0.0, 0.0), (0.0, 0.0), (2.0, 2.0), (-2.0, -2.0), (2.0, 4.0), (-2.0, 2.0)][(how % 6) as usize];
            let (a, b) = (a + t.0 * PI, b + t.1 * PI);
            let x = ArcSegment2::new(CircleSegment2::new(l.pt((0.0, 0.0)), f(k.sqrt() * l.scale())), f(a), f(b));
            let p: Point2<T> = l.pt(i.at(4).pt());
            let r = ctx.call(|| (locate_point_2_arc_segment_2(&p, &x), is_point_2_on_arc_segment_2(&p, &x)));
            let d = format!("{p} against {x:?}");
            match r {
                Err(e) => (Err(e), true, d),
                Ok((o, on)) => (
                    Ok(if o == Point2ArcSegment2Location::On { "on" } else { "off" }.to_string()),
                    on == (want == "on"),
                    d,
                ),
            }
        }
        _ => {
            let v = [l.pt(i.at(1).pt()), l.pt(i.at(2).pt()), l.pt(i.at(3).pt())];
            const O: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]];
            let o = O[(how % 6) as usize];
            let mut x: Triangle2<T> = Triangle2::new(v[o[0]], v[o[1]], v[o[2]]);
            if how % 5 == 0 {
                x.reverse_orientation();
            }
            let p: Point2<T> = l.pt(i.at(4).pt());
            let r = ctx.call(|| locate_point_2_triangle_2(&p, &x));
            let d = format!("{p} against {x:?}");
            match r {
                Err(e) => (Err(e), true, d),
                Ok(o) => (
                    Ok(match o {
                        Point2Triangle2Location::On => "on",
                        Point2Triangle2Location::Inside => "inside",
                        Point2Triangle2Location::Outside => "outside",
                    }
                    .to_string()),
                    true,
                    d,
                ),
            }
        }
    };
    match got {
        Err(e) => ctx.fail(format!("{d}: {e}")),
        Ok(g) => {
            ctx.check(g == want, || format!("{d}: located {g}, specified {want}"));
            ctx.check(flag_ok, || format!("{d}: predicate wrong, specified {want}"));
        }
    }
}

pub fn locate(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    locate_one::<f64>(ctx, c, l);
    // exact in single precision too
    let kind = c.at(0).at(0).at(0).int();
    if dyadic && (kind == 3 || kind == 6) {
        locate_one::<f32>(ctx, c, l);
    }
}

fn proj_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift, tol: f64) {
    let i = c.at(0);
    let kind = i.at(0).at(0).int();
    let (a, b) = (i.at(1).pt(), i.at(2).pt());
    let how = ctx.rng.next() % 60;
    let p: Point2<T> = l.pt(i.at(3).pt());
    let exp: Vec<P2> = c.at(1).at(0).items().iter().map(|z| l.p(rat(z))).collect();
    let (r, d) = if kind == 1 {
        let x: Line2<T> = line(l, a, b, how);
        (ctx.call(|| vec![point_2_project_line_2(&p, &x)]), format!("{p} onto {x:?}"))
    } else {
        let (a, b) = if how % 2 == 0 { (a, b) } else { (b, a) };
        let x: LineSegment2<T> = LineSegment2::new(l.pt(a), l.pt(b));
        (
            ctx.call(|| point_2_project_line_segment_2(&p, &x).into_iter().collect()),
            format!("{p} onto {x:?}"),
        )
    };
    match r {
        Err(e) => ctx.fail(format!("{d}: {e}")),
        Ok(g) => {
            let g: Vec<P2> = g.iter().map(xy).collect();
            ctx.check(same_set(&g, &exp, tol), || format!("{d}: projection {g:?}, specified {exp:?}"));
        }
    }
}
pub fn proj(ctx: &mut Ctx, c: &Val, l: &Lift) {
    proj_one::<f64>(ctx, c, l, TOL);
    let i = c.at(0);
    if small(&[i.at(1).pt(), i.at(2).pt(), i.at(3).pt()], l) {
        proj_one::<f32>(ctx, c, l, TOL32);
    }
}

fn vec_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift, tol: f64) {
    let (i, o) = (c.at(0), c.at(1));
    let f = T::from_f64;
    let near = |a: f64, b: f64| (a - b).abs() <= tol * 1f64.max(b.abs());
    match i.at(0).at(0).int() {
        1 => {
            let (u, v) = (i.at(1).pt(), i.at(2).pt());
            let sgn = if l.mirrored() { -1.0 } else { 1.0 };
            let k2 = l.scale() * l.scale();
            let (dot, cross) = (o.at(0).f() * k2, o.at(1).f() * k2 * sgn);
            let (lu, lv) = ((o.at(2).f() * k2).sqrt(), (o.at(3).f() * k2).sqrt());
            let (x, y): (Vector2<T>, Vector2<T>) = (l.vec(u), l.vec(v));
            let (ux, vx) = (xyv(&x), xyv(&y));
            let r = ctx.call(|| {
                let n = x.normalize();
                (
                    x.dot(&y).into(),
                    x.cross(&y).into(),
                    x.length().into(),
                    xyv(&n),
                    xyv(&(x + y)),
                    xyv(&(x - y)),
                    xyv(&(x * f(3.0))),
                    xyv(&(x / f(2.0))),
                    x == y,
                    x.radian_to(&y).into(),
                )
            });
            let d = || format!("vectors {x:?}, {y:?}");
            let (gd, gc, gl, n, s, m, k3, h, eq, r): (f64, f64, f64, P2, P2, P2, P2, P2, bool, f64) = match r {
                Ok(v) => v,
                Err(e) => {
                    ctx.fail(format!("{}: {e}", d()));
                    return;
                }
            };
            // relative to the vectors' size where they are small
            let unit = |x: f64| if x > 0.0 { x.min(1.0) } else { 1.0 };
            let near_of = |a: f64, b: f64, x: f64| (a - b).abs() <= tol * unit(x).max(b.abs());
            ctx.check(near_of(gd, dot, lu * lv), || format!("{}: dot {gd}, specified {dot}", d()));
            ctx.check(near_of(gc, cross, lu * lv), || format!("{}: cross {gc}, specified {cross}", d()));
            ctx.check(near_of(gl, lu, lu), || format!("{}: length {gl}, specified {lu}", d()));
            ctx.check(close(s, (ux.0 + vx.0, ux.1 + vx.1), tol), || format!("{}: sum {s:?}", d()));
            ctx.check(close(m, (ux.0 - vx.0, ux.1 - vx.1), tol), || format!("{}: difference {m:?}", d()));
            ctx.check(close(k3, (ux.0 * 3.0, ux.1 * 3.0), tol), || format!("{}: times three {k3:?}", d()));
            ctx.check(close(h, (ux.0 / 2.0, ux.1 / 2.0), tol), || format!("{}: halved {h:?}", d()));
            ctx.check(eq == (u == v), || format!("{}: equal {eq}", d()));
            let want = if lu == 0.0 { (0.0, 0.0) } else { (ux.0 / lu, ux.1 / lu) };
            ctx.check(close(n, want, tol), || format!("{}: normalised {n:?}, specified {want:?}", d()));
            if lu > 0.0 && lv > 0.0 {
                let (cs, sn) = (r.cos() * lu * lv, r.sin() * lu * lv);
                let w = lu * lv;
                ctx.check(
                    r >= -tol && r <= 2.0 * PI + tol && (cs - dot).abs() <= 4.0 * tol * w && (sn - cross).abs() <= 4.0 * tol * w,
                    || format!("{}: radian_to {r}, specified |u||v|(cos, sin) = ({dot}, {cross})", d()),
                );
            }
            // points
            let (p, q): (Point2<T>, Point2<T>) = (l.pt(u), l.pt(v));
            let (pp, qq) = (xy(&p), xy(&q));
            let r = ctx.call(|| (p.distance(&q).into(), xyv(&(p - q)), xyv(&(p + q)), xyv(&p.get_vector())));
            match r {
                Err(e) => ctx.fail(format!("points {p}, {q}: {e}")),
                Ok((dist, df, sm, gv)) => {
                    let dist: f64 = dist;
                    let w = ((pp.0 - qq.0).powi(2) + (pp.1 - qq.1).powi(2)).sqrt();
                    ctx.check(near(dist, w), || format!("points {p}, {q}: distance {dist}"));
                    ctx.check(close(df, (pp.0 - qq.0, pp.1 - qq.1), tol), || format!("points {p}, {q}: difference {df:?}"));
                    ctx.check(close(sm, (pp.0 + qq.0, pp.1 + qq.1), tol), || format!("points {p}, {q}: sum {sm:?}"));
                    ctx.check(gv == pp, || format!("point {p}: vector {gv:?}"));
                }
            }
        }
        2 => {
            let (p, q, r): (Point2<T>, Point2<T>, Point2<T>) = (l.pt(i.at(1).pt()), l.pt(i.at(2).pt()), l.pt(i.at(3).pt()));
            let want = flip(st(o.at(0)), l.mirrored());
            let g = ctx.call(|| Point2::turn(&p, &q, &r));
            let d = format!("turn {p} {q} {r}");
            match g {
                Err(e) => ctx.fail(format!("{d}: {e}")),
                Ok(g) => {
                    let s = match g {
                        TurnDirection::Left => "left",
                        TurnDirection::Right => "right",
                        TurnDirection::Collinear => "collinear",
                    };
                    ctx.check(s == want, || format!("{d}: {s}, specified {want}"));
                }
            }
        }
        3 => {
            // the tolerance is that of the number type; no lift: the order depends on the axes
            let eps: f64 = T::default_eps().into();
            let (p, q, e) = (i.at(1).pt(), i.at(2).pt(), i.at(3).pt());
            let k = [0.0, 1.0][ctx.rng.below(2) as usize];
            let off = ([0.0, -37.0, 64.0][ctx.rng.below(3) as usize]) * if tol < 1e-6 { 1.0 } else { 0.0 };
            let mk = |x: f64, y: f64| -> Point2<T> { Point2::new(f(x), f(y)) };
            let a = mk(p.0 + off, p.1 + k);
            let b = mk(q.0 + off + e.0 * eps / 10.0, q.1 + k + e.1 * eps / 10.0);
            let want = o.at(1).int();
            let weq = o.at(0).bool();
            let r = ctx.call(|| {
                let (va, vb) = (Vertex2::new(a.x(), a.y()), Vertex2::new(b.x(), b.y()));
                (
                    vec![a == b, b == a, a.equals(&b), va == vb, va.equals(&vb)],
                    vec![a.cmp(&b), b.cmp(&a).reverse(), a.partial_cmp(&b).unwrap(), va.cmp(&vb), vb.partial_cmp(&va).unwrap().reverse()],
                )
            });
            let d = format!("points {a}, {b}");
            match r {
                Err(e) => ctx.fail(format!("{d}: {e}")),
                Ok((eqs, cmps)) => {
                    ctx.check(eqs.iter().all(|x| *x == weq), || format!("{d}: equality {eqs:?}, specified {weq}"));
                    let w = match want {
                        0 => Ordering::Equal,
                        1 => Ordering::Greater,
                        _ => Ordering::Less,
                    };
                    ctx.check(cmps.iter().all(|x| *x == w), || format!("{d}: order {cmps:?}, specified {w:?}"));
                }
            }
        }
        4 => {
            let h = ctx.rng.next();
            let x: Line2<T> = line(l, i.at(1).pt(), i.at(2).pt(), h % 60);
            let y: Line2<T> = line(l, i.at(3).pt(), i.at(4).pt(), h / 64 % 60);
            line_eq(ctx, &x, &y, o.at(0).bool());
            for (ln, a, b) in [(&x, i.at(1), i.at(2)), (&y, i.at(3), i.at(4))] {
                for p in [a, b] {
                    let p: Point2<T> = l.pt(p.pt());
                    let on = ctx.call(|| is_point_2_on_line_2(&p, ln));
                    ctx.check(on == Ok(true), || format!("{ln:?} through {p}: contains it {on:?}"));
                }
            }
        }
        _ => {
            let mk = |v: &Val, k: f64| -> Line2<T> { Line2::new(f(v.at(0).f() * k), f(v.at(1).f() * k), f(v.at(2).f() * k)) };
            let ks = [1.0, 2.0, -1.0, 0.5, 3.0];
            let (k, m) = (ks[ctx.rng.below(5) as usize], ks[ctx.rng.below(5) as usize]);
            let (x, y) = (mk(i.at(1), k), mk(i.at(2), m));
            line_eq(ctx, &x, &y, o.at(0).bool());
        }
    }
}
fn line_eq<T: Num>(ctx: &mut Ctx, x: &Line2<T>, y: &Line2<T>, want: bool) {
    let r = ctx.call(|| (x == y, y == x));
    ctx.check(r == Ok((want, want)), || format!("{x:?} equals {y:?}: {r:?}, specified {want}"));
}
fn xyv<T: Num>(v: &Vector2<T>) -> P2 {
    (v.x().into(), v.y().into())
}

pub fn vec(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    vec_one::<f64>(ctx, c, l, 1e-9);
    let kind = c.at(0).at(0).at(0).int();
    if dyadic && (kind == 2 || kind == 3 || kind == 5) {
        vec_one::<f32>(ctx, c, l, 1e-5);
    }
    if kind == 1 && l.s == 1.0 && l.t == (0.0, 0.0) {
        vec_one::<f32>(ctx, c, l, 1e-5);
    }
}

/// Arcs in 24ths of a turn.
pub fn mono(ctx: &mut Ctx, c: &Val) {
    let st = c.at(0).at(0).ipt();
    let (start, span) = (c.at(1).at(0).int(), c.at(1).at(1).int());
    let unit = 2.0 * PI / 24.0;
    let center = Point2::new(ctx.rng.range(-20, 20) as f64, ctx.rng.range(-20, 20) as f64);
    let radius = [1.0, 2.5, 7.0, 0.5][ctx.rng.below(4) as usize];
    let s = CircleSegment2::new(center, radius);
    let (a, b) = (st.0 as f64 * unit, st.1 as f64 * unit);
    let d = format!("arc of {s:?} from {a} to {b}");
    let at = |r: f64| (center.x() + radius * r.cos(), center.y() + radius * r.sin());
    let r = ctx.call(|| {
        let x = ArcSegment2::new(s, a, b);
        let ps = x.monotone();
        (
            xy(&x.source()),
            xy(&x.target()),
            x.source_radian(),
            x.target_radian(),
            (xy(&x.center()), x.radius(), x.segment_type() == Segment2Type::ArcSegment2),
            ps.iter()
                .map(|p| (p.source_radian(), p.target_radian(), p.is_top(), xy(&p.center()), p.radius(), xy(&p.source()), xy(&p.target())))
                .collect::<Vec<_>>(),
            x.is_top(),
        )
    });
    let (src, tgt, sr, tr, sup, ps, top) = match r {
        Ok(v) => v,
        Err(e) => {
            ctx.fail(format!("{d}: {e}"));
            return;
        }
    };
    ctx.check(sup == (xy(&center), radius, true), || format!("{d}: centre, radius {sup:?}"));
    let (es, et) = (at(start as f64 * unit), at((start + span) as f64 * unit));
    if span < 24 {
        ctx.check(close(src, es, TOL) && close(tgt, et, TOL), || {
            format!("{d}: ends {src:?}, {tgt:?}, specified {es:?}, {et:?}")
        });
        // the reported angles are directions of the reported ends
        ctx.check(close(at(sr), src, TOL) && close(at(tr), tgt, TOL), || format!("{d}: angles {sr}, {tr}, ends {src:?}, {tgt:?}"));
    }
    if span < 24 {
        let q = ctx.call(|| {
            let f = |x: f64| x as f32;
            let x = ArcSegment2::new(CircleSegment2::new(Point2::new(f(center.x()), f(center.y())), f(radius)), f(a), f(b));
            (xy(&x.source()), xy(&x.target()), xy(&x.center()), x.radius() as f64)
        });
        ctx.check(q.as_ref().is_ok_and(|q| close(q.0, es, TOL32) && close(q.1, et, TOL32) && q.2 == xy(&center) && q.3 == radius), || {
            format!("{d} (single precision): ends, centre and radius {q:?}, specified {es:?}, {et:?}")
        });
    }
    // `is_top` of an arc given within one turn
    if st.0 >= 0 && st.0 < 24 && st.1 > st.0 && st.1 <= 24 {
        let want = st.1 <= 12;
        ctx.check(top == want, || format!("{d}: is_top {top}, specified {want}"));
    }
    // pieces as (from, length, top) in 24ths
    let to24 = |x: f64| {
        let q = x / unit;
        let r = q.round();
        if (q - r).abs() < 1e-7 { Some(r as i64) } else { None }
    };
    let mut got = vec![];
    for p in &ps {
        let (x, y) = (to24(p.0), to24(p.1));
        match (x, y) {
            (Some(x), Some(y)) => got.push((x.rem_euclid(24), y - x, p.2)),
            _ => {
                ctx.fail(format!("{d}: piece from {} to {} does not end at the arc's ends or half turns", p.0, p.1));
                return;
            }
        }
        ctx.check(p.3 == xy(&center) && p.4 == radius, || format!("{d}: a piece is on another circle"));
        ctx.check(close(p.5, at(p.0), TOL) && close(p.6, at(p.1), TOL), || format!("{d}: ends of a piece {:?} {:?}", p.5, p.6));
    }
    // The arc is covered cell by cell, in the half each piece claims: pieces may be finer than
    // the specified ones.
    let cells = |ps: &[(i64, i64, bool)]| {
        let mut v: Vec<(i64, bool)> = ps.iter().flat_map(|p| (0..p.1.max(0)).map(move |i| ((p.0 + i).rem_euclid(24), p.2))).collect();
        v.sort();
        v
    };
    let spec: Vec<(i64, i64, bool)> =
        c.at(1).at(2).items().iter().map(|p| (p.at(0).int(), p.at(1).int(), p.at(2).bool())).collect();
    let want = cells(&spec);
    let whole = got.iter().all(|p| p.1 > 0 && p.1 <= 12);
    ctx.check(whole && cells(&got) == want, || format!("{d}: pieces {got:?}, specified {spec:?} (from, length in 24ths, upper)"));
    if span == 24 {
        let r = ctx.call(|| {
            s.monotone().iter().map(|p| (p.source_radian(), p.target_radian(), p.is_top(), xy(&p.center()), p.radius())).collect::<Vec<_>>()
        });
        match r {
            Err(e) => ctx.fail(format!("{s:?}: {e}")),
            Ok(ps) => {
                let g: Vec<_> = ps.iter().map(|p| (to24(p.0).unwrap_or(-99).rem_euclid(24), to24(p.1).unwrap_or(-99) - to24(p.0).unwrap_or(-99), p.2)).collect();
                ctx.check(g.iter().all(|p| p.1 > 0 && p.1 <= 12) && cells(&g) == want && ps.iter().all(|p| p.3 == xy(&center) && p.4 == radius), || format!("pieces of {s:?}: {ps:?}"));
            }
        }
    }
}

fn hull_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let mut pts: Vec<P2> = c.at(0).items().iter().map(|p| l.p(p.pt())).collect();
    let mut exp: Vec<P2> = c.at(1).items().iter().map(|p| l.p(p.pt())).collect();
    if l.mirrored() {
        exp.reverse();
    }
    let k = (0..exp.len()).min_by(|a, b| exp[*a].partial_cmp(&exp[*b]).unwrap()).unwrap();
    exp.rotate_left(k);
    let n = pts.len();
    for i in (1..n).rev() {
        pts.swap(i, ctx.rng.below(i as u64 + 1) as usize);
    }
    for _ in 0..ctx.rng.below(3) {
        let p = pts[ctx.rng.below(n as u64) as usize];
        let at = ctx.rng.below(pts.len() as u64 + 1) as usize;
        pts.insert(at, p);
    }
    let v: Vec<Point2<T>> = pts.iter().map(|p| Point2::new(T::from_f64(p.0), T::from_f64(p.1))).collect();
    let r = ctx.call(|| {
        let mut h = ConvexHull2::new(v);
        let a: Vec<P2> = h.convex_hull().iter().map(xy).collect();
        let b: Vec<P2> = h.convex_hull().iter().map(xy).collect();
        (a, b)
    });
    match r {
        Err(e) => ctx.fail(format!("hull of {pts:?}: {e}")),
        Ok((a, b)) => {
            ctx.check(a == exp && b == exp, || format!("hull of {pts:?}: {a:?}, again {b:?}, specified {exp:?}"));
        }
    }
}
pub fn hull(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    hull_one::<f64>(ctx, c, l);
    if dyadic {
        hull_one::<f32>(ctx, c, l);
    }
}

/// The vertex list in place, from another starting vertex and possibly backwards.
pub fn turned(rng: &mut Rng, v: &[P2], l: &Lift) -> (Vec<P2>, bool) {
    let mut p: Vec<P2> = v.iter().map(|p| l.p(*p)).collect();
    let k = rng.below(p.len().max(1) as u64) as usize;
    p.rotate_left(k);
    let back = rng.below(2) == 1;
    if back {
        p.reverse();
    }
    (p, back)
}
fn polygon<T: Num>(p: &[P2]) -> Polygon2<T> {
    Polygon2::new(p.iter().map(|p| Point2::new(T::from_f64(p.0), T::from_f64(p.1))).collect())
}

/// `single` asks in single precision only.
pub fn simple(ctx: &mut Ctx, c: &Val, l: &Lift, single: bool) {
    let v: Vec<P2> = c.at(0).items().iter().map(|p| p.pt()).collect();
    let (p, _) = turned(&mut ctx.rng, &v, l);
    let want = c.at(1).at(0).bool();
    if single && p.iter().any(|p| p.0.abs() > 12.0 || p.1.abs() > 12.0) {
        return;
    }
    let r = ctx.call(|| if single { polygon::<f32>(&p).is_simple() } else { polygon::<f64>(&p).is_simple() });
    ctx.check(r == Ok(want), || format!("polygon {p:?}: is_simple {r:?}, specified {want}"));
}

fn measure_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let v: Vec<P2> = c.at(0).items().iter().map(|p| p.pt()).collect();
    let (p, back) = turned(&mut ctx.rng, &v, l);
    let k2 = l.scale() * l.scale();
    let sign = if back != l.mirrored() { -1.0 } else { 1.0 };
    let area = c.at(1).at(1).f() / 2.0 * k2 * sign;
    let r = ctx.call(|| {
        let g = polygon::<T>(&p);
        let e: Vec<(P2, P2)> = g.edges().iter().map(|e| (xy(&e.source()), xy(&e.target()))).collect();
        let a: f64 = g.area().into();
        let vs: Vec<P2> = g.vertices().iter().map(xy).collect();
        (a, e, vs, g.is_convex())
    });
    let (a, e, vs, cv) = match r {
        Ok(v) => v,
        Err(e) => {
            ctx.fail(format!("polygon {p:?}: {e}"));
            return;
        }
    };
    ctx.check((a - area).abs() <= 1e-6 * 1f64.max(area.abs()), || format!("polygon {p:?}: area {a}, specified {area}"));
    let n = p.len();
    let want: Vec<(P2, P2)> = (0..n).map(|i| (p[i], p[(i + 1) % n])).collect();
    ctx.check(e == want, || format!("polygon {p:?}: edges {e:?}"));
    ctx.check(vs == p, || format!("polygon {p:?}: vertices {vs:?}"));
    if c.at(1).at(0).bool() {
        let w = c.at(1).at(2).bool();
        ctx.check(cv == w, || format!("polygon {p:?}: is_convex {cv}, specified {w}"));
    }
}
pub fn measure(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    measure_one::<f64>(ctx, c, l);
    if dyadic {
        measure_one::<f32>(ctx, c, l);
    }
}

fn inpoly_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let v: Vec<P2> = c.at(0).items().iter().map(|p| p.pt()).collect();
    let locs = c.at(1).at(3).items();
    let (p, _) = turned(&mut ctx.rng, &v, l);
    let lo = |k: fn(&P2) -> f64| v.iter().map(k).fold(f64::MAX, f64::min);
    let hi = |k: fn(&P2) -> f64| v.iter().map(k).fold(f64::MIN, f64::max);
    let (x0, y0) = (lo(|p| p.0) - 0.5, lo(|p| p.1) - 0.5);
    let h = ((hi(|p| p.1) + 0.5 - y0) * 2.0) as usize + 1;
    let g = polygon::<T>(&p);
    for (i, w) in locs.iter().enumerate() {
        let q = (x0 + 0.5 * (i / h) as f64, y0 + 0.5 * (i % h) as f64);
        let w = w.int();
        let q: Point2<T> = l.pt(q);
        let r = ctx.call(|| {
            let o = match locate_point_2_polygon_2(&q, &g) {
                Point2Polygon2Location::Outside => 0,
                Point2Polygon2Location::Inside => 1,
                Point2Polygon2Location::On => 2,
            };
            (
                o,
                is_point_2_outside_polygon_2(&q, &g),
                is_point_2_inside_polygon_2(&q, &g),
                is_point_2_on_polygon_2(&q, &g),
            )
        });
        if !ctx.check(r == Ok((w, w == 0, w == 1, w == 2)), || {
            format!("{q} in polygon {p:?}: (location, outside, inside, on) {r:?}, specified {w} (0 outside, 1 inside, 2 on)")
        }) {
            return;
        }
    }
}
pub fn inpoly(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    if !c.at(1).at(0).bool() {
        return;
    }
    inpoly_one::<f64>(ctx, c, l);
    if dyadic {
        inpoly_one::<f32>(ctx, c, l);
    }
}

fn equal_one<T: Num>(ctx: &mut Ctx, c: &Val, l: &Lift, tiny: f64) {
    let (x, y) = (c.at(0).at(1), c.at(0).at(2));
    let want = c.at(1).at(0).bool();
    // within the tolerance of the specified place, and well outside it
    let by = [0.0, tiny, -tiny][ctx.rng.below(3) as usize];
    let away = ctx.rng.below(8);
    let pt = |v: &Val, i: usize, d: f64| {
        let p = l.p((v.at(i).f(), v.at(i + 1).f()));
        Point2::new(T::from_f64(p.0 + d), T::from_f64(p.1 - d))
    };
    let seg = |v: &Val, d: f64| LineSegment2::new(pt(v, 0, d), pt(v, 2, d));
    // (equal, exchanged, with itself, with itself moved a little more than the tolerance)
    let r = match c.at(0).at(0).at(0).int() {
        1 => {
            let (a, b, far) = (seg(x, 0.0), seg(y, by), {
                let (p, q) = (pt(x, 0, 0.0), pt(x, 2, 0.0));
                let m = T::from_f64(if away % 2 == 0 { 0.01 } else { -0.01 });
                let move_x = |p: Point2<T>| Point2::new(p.x() + m, p.y());
                let move_y = |p: Point2<T>| Point2::new(p.x(), p.y() + m);
                match away / 2 {
                    0 => LineSegment2::new(move_x(p), q),
                    1 => LineSegment2::new(move_y(p), q),
                    2 => LineSegment2::new(p, move_x(q)),
                    _ => LineSegment2::new(p, move_y(q)),
                }
            });
            ctx.call(move || (a == b, b == a, a == a.clone(), a == far, format!("{a:?} and {b:?} (and {far:?})")))
        }
        2 => {
            // angles do not depend on the lift: an arc is compared in place
            let arc = |v: &Val, how: u64, d: f64| {
                let a = |i: usize| match how % 2 {
                    0 => v.at(i).f() * PI / 12.0,
                    _ => v.at(i).f() / 24.0 * 2.0 * PI + d,
                };
                ArcSegment2::new(CircleSegment2::new(pt(v, 0, 0.0), T::from_f64(v.at(2).f() * l.scale())), T::from_f64(a(3)), T::from_f64(a(4)))
            };
            let (a, b) = (arc(x, 0, 0.0), arc(y, away, by));
            let m = T::from_f64(if away % 2 == 0 { 0.01 } else { -0.01 });
            let k = CircleSegment2::new(a.center(), a.radius());
            let far = match away / 2 {
                0 => ArcSegment2::new(k, a.source_radian() + m, a.target_radian()),
                1 => ArcSegment2::new(k, a.source_radian(), a.target_radian() + m),
                2 => ArcSegment2::new(CircleSegment2::new(a.center(), a.radius() + m), a.source_radian(), a.target_radian()),
                _ => ArcSegment2::new(CircleSegment2::new(Point2::new(a.center().x(), a.center().y() + m), a.radius()), a.source_radian(), a.target_radian()),
            };
            ctx.call(move || (a == b, b == a, a == a.clone(), a == far, format!("{a:?} and {b:?} (and {far:?})")))
        }
        3 => {
            let tri = |v: &Val, d: f64| {
                let mut t = Triangle2::new(pt(v, 0, d), pt(v, 2, d), pt(v, 4, d));
                for _ in 0..v.at(6).int() {
                    t.reverse_orientation();
                }
                t
            };
            // moving a corner may turn a degenerate triangle round
            let (a, b) = (tri(x, 0.0), tri(y, 0.0));
            let mut far = a.clone();
            far.reverse_orientation();
            ctx.call(move || (a == b, b == a, a == a.clone(), a == far, format!("{a:?} and {b:?}")))
        }
        _ => {
            let vertex = |v: &Val, i: usize, d: f64| {
                let p = pt(v, i, d);
                std::rc::Rc::new(std::cell::RefCell::new(Vertex2::new(p.x(), p.y())))
            };
            let edge = |v: &Val, d: f64| {
                let (s, t) = (vertex(v, 0, d), vertex(v, 2, d));
                if v.at(4).int() == 0 { Edge2::new_segment(s, t) } else { Edge2::new_arc(s, t) }
            };
            let (a, b) = (edge(x, 0.0), edge(y, by));
            let straight = |v: &Val| v.at(4).int() == 0;
            let (sx, sy) = (straight(x), straight(y));
            let far = Edge2::new_arc(vertex(x, 0, 0.0), vertex(x, 2, 0.0));
            ctx.call(move || {
                let itself = !sx || a == a.clone();
                let off = sx && a == far;
                (a == b, b == a, itself, off, format!("edges {:?} (straight: {sx}) and {:?} ({sy})", a.to_segment(), b.to_segment()))
            })
        }
    };
    match r {
        Err(e) => ctx.fail(format!("equality of {x:?} and {y:?}: {e}")),
        Ok((e, f, own, far, d)) => {
            ctx.check(e == want && f == want, || format!("{d}: equal {e}, exchanged {f}, specified {want}"));
            ctx.check(own && !far, || format!("{d}: the first equal to its copy {own}, to a different one {far}"));
        }
    }
}
pub fn equal(ctx: &mut Ctx, c: &Val, l: &Lift, dyadic: bool) {
    equal_one::<f64>(ctx, c, l, 1e-12);
    if dyadic {
        equal_one::<f32>(ctx, c, l, 0.0);
    }
}

/// The two lines are far from parallel.
fn steep(i: &Val) -> bool {
    let d = |j: usize| (i.at(j + 1).pt().0 - i.at(j).pt().0, i.at(j + 1).pt().1 - i.at(j).pt().1);
    let (u, v) = (d(1), d(3));
    (u.0 * v.1 - u.1 * v.0).abs() > 0.2 * (u.0.hypot(u.1) * v.0.hypot(v.1))
}

pub fn check(ctx: &mut Ctx, fam: &str, c: &Val, mode: &str) {
    let mut r = Rng::new(ctx.rng.next());
    let full = ctx.tier > 0;
    let mut lifts: Vec<(Lift, bool)> =
        if full { Lift::all(&mut r, 3) } else { Lift::some(&mut r, 1) }.into_iter().map(|l| (l, true)).collect();
    if r.below(3) == 0 || full {
        lifts.push((Lift::skew(&mut r), true));
    }
    if let Some(mut l) = Lift::extreme_of(&mut r, c.at(0).reach()) {
        // collinearity must survive for a hull: sizes 1/32 to 1/1024
        if fam == "hull" && l.s < 1.0 {
            l.s = 1.0 / (32u64 << r.below(6)) as f64;
        }
        // lines: the conditioning of nearly parallel ones
        let fine = match fam {
            "equal" => false,
            "lines" => l.s < 1.0 || steep(c.at(0)),
            _ => true,
        };
        if fine {
            lifts.push((l, false));
        }
    }
    if fam == "vec" && matches!(c.at(0).at(0).at(0).int(), 1 | 4) && r.below(2) == 0 {
        lifts.push((Lift::minute(&mut r), false));
    }
    if fam == "mono" {
        mono(ctx, c);
        mono(ctx, c);
    } else {
        for (l, dyadic) in &lifts {
            match fam {
                "lines" => lines(ctx, c, l),
                "locate" => locate(ctx, c, l, *dyadic),
                "proj" => proj(ctx, c, l),
                "vec" => vec(ctx, c, l, *dyadic),
                "hull" => hull(ctx, c, l, *dyadic),
                "simple" => simple(ctx, c, l, mode == "single"),
                "measure" => measure(ctx, c, l, *dyadic),
                "inpoly" => inpoly(ctx, c, l, *dyadic),
                "equal" => equal(ctx, c, l, *dyadic),
                _ => panic!("HARNESS: family {fam}"),
            }
        }
    }
    ctx.sample(|| {
        let s = format!("{:?}", ctx_case(c));
        s
    });
}
fn ctx_case(c: &Val) -> String {
    let s = format!("{c:?}");
    s.chars().take(300).collect()
}
