//! The WebAssembly build of the library, run by node (wasm/serve.mjs): the specified calls are
//! made through the binding; results must be the specified ones and those of the native library.
use crate::ctx::{Ctx, Rng};
use crate::curves::{decode, intersect, intersected, rat, turn, Obj, Raw};
use crate::lift::*;
use crate::shapes::{flip, st, turned};
use crate::sweep;
use crate::val::Val;
use crate::walk::Machine;
use rcgal::algorithm::location::location_enum::*;
use rcgal::algorithm::triangulation::earcut_2::earcut_2;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::util_enum::*;
use rcgal::kernel::{point_2::Point2, polygon_2::Polygon2};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

type P2 = (f64, f64);

/// What the binding returned.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    List(Vec<J>),
    Error(String),
}
impl J {
    fn parse(b: &[u8], i: &mut usize) -> J {
        match b[*i] {
            b'[' => {
                *i += 1;
                let mut v = vec![];
                while b[*i] != b']' {
                    v.push(J::parse(b, i));
                    if b[*i] == b',' {
                        *i += 1;
                    }
                }
                *i += 1;
                J::List(v)
            }
            b'{' => {
                // {"error":"..."}
                *i += b"{\"error\":".len();
                let s = J::parse(b, i);
                *i += 1;
                J::Error(if let J::Str(s) = s { s } else { String::new() })
            }
            b'"' => {
                *i += 1;
                let st = *i;
                while b[*i] != b'"' {
                    *i += if b[*i] == b'\\' { 2 } else { 1 };
                }
                let s = String::from_utf8_lossy(&b[st..*i]).to_string();
                *i += 1;
                match s.as_str() {
                    "NaN" => J::Num(f64::NAN),
                    "Infinity" => J::Num(f64::INFINITY),
                    "-Infinity" => J::Num(f64::NEG_INFINITY),
                    _ => J::Str(s),
                }
            }
            b't' => {
                *i += 4;
                J::Bool(true)
            }
            b'f' => {
                *i += 5;
                J::Bool(false)
            }
            b'n' => {
                *i += 4;
                J::Null
            }
            _ => {
                let st = *i;
                while *i < b.len() && !matches!(b[*i], b',' | b']' | b'}') {
                    *i += 1;
                }
                J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap_or_else(|_| panic!("HARNESS: answer of node")))
            }
        }
    }
    fn num(&self) -> f64 {
        match self {
            J::Num(x) => *x,
            J::Bool(b) => *b as i64 as f64,
            _ => f64::NAN,
        }
    }
    fn is(&self, b: bool) -> bool {
        *self == J::Bool(b)
    }
    fn e(&self) -> u32 {
        match self {
            J::Num(x) => *x as u32,
            _ => u32::MAX,
        }
    }
    fn pt(&self) -> P2 {
        match self {
            J::List(v) if v.len() == 2 => (v[0].num(), v[1].num()),
            _ => (f64::NAN, f64::NAN),
        }
    }
    fn list(&self) -> &[J] {
        match self {
            J::List(v) => v,
            _ => &[],
        }
    }
    fn pts(&self) -> Vec<P2> {
        self.list().iter().map(|p| p.pt()).collect()
    }
}

pub enum Arg {
    F(f64),
    E(u32),
    R(usize),
    O(Option<usize>),
    Rs(Vec<usize>),
}
use Arg::*;

/// A program: calls whose arguments may be results of earlier ones.
#[derive(Default)]
pub struct Prog {
    text: String,
    n: usize,
}
impl Prog {
    fn op(&mut self, name: &str, args: &[Arg]) -> usize {
        self.text.push_str(if self.text.is_empty() { "[[\"" } else { ",[\"" });
        self.text.push_str(name);
        self.text.push('"');
        for a in args {
            match a {
                F(x) => self.text.push_str(&format!(",{x:?}")),
                E(x) => self.text.push_str(&format!(",{x}")),
                R(i) | O(Some(i)) => self.text.push_str(&format!(",\"${i}\"")),
                O(None) => self.text.push_str(",null"),
                Rs(v) => {
                    let v: Vec<String> = v.iter().map(|i| format!("\"${i}\"")).collect();
                    self.text.push_str(&format!(",[{}]", v.join(",")));
                }
            }
        }
        self.text.push(']');
        self.n += 1;
        self.n - 1
    }
    fn pt(&mut self, p: P2) -> usize {
        self.op("point2_new", &[F(p.0), F(p.1)])
    }
    fn line(&mut self, a: P2, b: P2) -> usize {
        let (a, b) = (self.pt(a), self.pt(b));
        self.op("linesegment2_new", &[R(a), R(b)])
    }
    fn circle(&mut self, c: P2, r: f64) -> usize {
        let c = self.pt(c);
        self.op("circlesegment2_new", &[R(c), F(r)])
    }
    /// The curve itself: (object, its kind).
    fn curve(&mut self, r: &Raw) -> (usize, usize) {
        match *r {
            Raw::L(a, b) => (self.line(a, b), 0),
            Raw::C(c, k) => (self.circle(c, k), 1),
            Raw::A(c, k, a, b) => {
                let c = self.circle(c, k);
                (self.op("arcsegment2_new", &[R(c), F(a), F(b)]), 2)
            }
        }
    }
    /// The curve as a Segment2, with other curves in some of the slots that do not count.
    fn segment(&mut self, r: &Raw, rng: &mut Rng) -> usize {
        let (i, k) = self.curve(r);
        let mut slots = [None; 3];
        let decoy = [
            Raw::L((-3.0, 1.0), (9.0, 2.0)),
            Raw::C((1.0, 1.0), 2.0),
            Raw::A((1.0, 0.0), 3.0, 0.5, 4.0),
        ];
        for (j, s) in slots.iter_mut().enumerate() {
            *s = if j == k {
                Some(i)
            } else if rng.below(2) == 0 {
                Some(self.curve(&decoy[j]).0)
            } else {
                None
            };
        }
        self.op("segment2_new", &[E(TYPES[k] as u32), O(slots[0]), O(slots[1]), O(slots[2])])
    }
    fn triangle(&mut self, v: &[P2]) -> usize {
        let v: Vec<usize> = v.iter().map(|p| self.pt(*p)).collect();
        self.op("triangle2_new", &[R(v[0]), R(v[1]), R(v[2])])
    }
    fn points(&mut self, v: &[P2]) -> Arg {
        Rs(v.iter().map(|p| self.pt(*p)).collect())
    }
    fn polygon(&mut self, v: &[P2]) -> usize {
        let a = self.points(v);
        self.op("polygon2_new", &[a])
    }
}
const TYPES: [Segment2Type; 3] = [Segment2Type::LineSegment2, Segment2Type::CircleSegment2, Segment2Type::ArcSegment2];

struct Bridge {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
}
static PIDS: Mutex<Vec<u32>> = Mutex::new(Vec::new());
/// Ends the node processes, one of which may be running the code under test forever.
pub fn kill_all() {
    for p in PIDS.lock().unwrap().iter() {
        let _ = Command::new("kill").args(["-9", &p.to_string()]).status();
    }
}
impl Bridge {
    fn start() -> Bridge {
        let v = |k| std::env::var(k).unwrap_or_else(|_| panic!("HARNESS: {k} is not set"));
        let mut child = Command::new("node")
            .args([v("RV_SERVE"), v("RV_WASM")])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("HARNESS: node: {e}"));
        PIDS.lock().unwrap().push(child.id());
        let out = BufReader::new(child.stdout.take().unwrap());
        Bridge { child, out }
    }
    fn send(&mut self, line: &str) -> Result<Vec<J>, String> {
        let mut l = line.to_string();
        l.push('\n');
        self.child.stdin.as_mut().unwrap().write_all(l.as_bytes()).unwrap_or_else(|e| panic!("HARNESS: node: {e}"));
        let mut a = String::new();
        self.out.read_line(&mut a).unwrap_or_else(|e| panic!("HARNESS: node: {e}"));
        if a.trim().is_empty() {
            panic!("HARNESS: node ended on {line}");
        }
        let mut i = 0;
        let r = match J::parse(a.as_bytes(), &mut i) {
            J::List(v) => v,
            _ => vec![],
        };
        if let Some(J::Error(e)) = r.last() {
            if e.starts_with("PROGRAM") {
                panic!("HARNESS: {e} in {line}");
            }
            return Err(format!("the binding failed in step {} with \"{e}\"", r.len()));
        }
        Ok(r)
    }
}
thread_local!(static BRIDGE: RefCell<Option<Bridge>> = const { RefCell::new(None) });
fn send(line: &str) -> Result<Vec<J>, String> {
    BRIDGE.with(|b| b.borrow_mut().get_or_insert_with(Bridge::start).send(line))
}
fn go(ctx: &mut Ctx, p: &Prog) -> Option<Vec<J>> {
    let line = format!("{}]", p.text);
    match ctx.call(|| send(&line)) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) | Err(e) => {
            ctx.fail(format!("{e}; program {line}"));
            None
        }
    }
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * 1f64.max(b.abs())
}
fn same_list(a: &[P2], b: &[P2]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| close(*b, *a, 1e-9))
}

fn pair(ctx: &mut Ctx, fam: &str, c: &Val, l: &Lift) {
    let p = decode(fam, c);
    let mut r = Rng::new(ctx.rng.next());
    let (ra, rb) = (r.below(2) == 1, r.below(2) == 1);
    let (ta, tb) = (turn(&mut r, &p.a), turn(&mut r, &p.b));
    let (a, b) = (p.a.raw(l, ra, ta), p.b.raw(l, rb, tb));
    let exp: Vec<P2> = p.points.iter().map(|q| l.p(*q)).collect();
    let mut g = Prog::default();
    let (x, y) = (g.segment(&a, &mut r), g.segment(&b, &mut r));
    let i = g.op("segment_2_segment_2_intersection", &[R(x), R(y)]);
    let j = g.op("segment_2_segment_2_intersection", &[R(y), R(x)]);
    let k = g.op("is_segment_2_segment_2_intersected", &[R(x), R(y)]);
    let m = g.op("is_segment_2_segment_2_intersected", &[R(y), R(x)]);
    // the parts of the second curve, read back
    let kind = g.op("__wbg_get_segment2_segment_type", &[R(y)]);
    let (o, kb) = g.curve(&b);
    let names = [
        &["linesegment2_segment_type", "linesegment2_source", "linesegment2_target"][..],
        &["circlesegment2_segment_type", "circlesegment2_center", "circlesegment2_radius"],
        &["arcsegment2_segment_type", "arcsegment2_source", "arcsegment2_target", "arcsegment2_source_radian", "arcsegment2_target_radian", "arcsegment2_center", "arcsegment2_radius"],
    ][kb];
    let reads: Vec<usize> = names.iter().map(|n| g.op(n, &[R(o)])).collect();
    let v = match go(ctx, &g) {
        None => return,
        Some(v) => v,
    };
    let d = || format!("{a:?} with {b:?}");
    let (na, nb): (Obj<f64>, Obj<f64>) = (a.make(), b.make());
    let native = ctx.call(|| (intersect(&na, &nb), intersect(&nb, &na), intersected(&na, &nb), intersected(&nb, &na)));
    let (n1, n2, n3, n4) = match native {
        Ok(v) => v,
        Err(_) => return,
    };
    let (n1, n2): (Vec<P2>, Vec<P2>) = (n1.iter().map(xy).collect(), n2.iter().map(xy).collect());
    let (g1, g2) = (v[i].pts(), v[j].pts());
    ctx.check(same_set(&g1, &n1, 1e-9) && same_set(&g2, &n2, 1e-9), || {
        format!("{}: intersections {g1:?}, exchanged {g2:?}; natively {n1:?}, {n2:?}", d())
    });
    ctx.check(v[k].is(n3) && v[m].is(n4), || format!("{}: predicates {:?}, {:?}; natively {n3}, {n4}", d(), v[k], v[m]));
    if !p.unspecified {
        let e = !exp.is_empty();
        ctx.check(same_set(&g1, &exp, TOL) && same_set(&g2, &exp, TOL) && v[k].is(e) && v[m].is(e), || {
            format!("{}: intersections {g1:?}, exchanged {g2:?}, predicates {:?}, {:?}; specified {exp:?}", d(), v[k], v[m])
        });
    }
    let got: Vec<J> = reads.iter().map(|i| v[*i].clone()).collect();
    let ok = v[kind].e() == TYPES[kb] as u32
        && got[0].e() == TYPES[kb] as u32
        && match (&b, &nb) {
            (Raw::L(p, q), _) => got[1].pt() == *p && got[2].pt() == *q,
            (Raw::C(c, r), _) => got[1].pt() == *c && got[2].num() == *r,
            (Raw::A(c, r, _, _), Obj::A(n)) => {
                close(got[1].pt(), xy(&n.source()), 1e-9)
                    && close(got[2].pt(), xy(&n.target()), 1e-9)
                    && near(got[3].num(), n.source_radian())
                    && near(got[4].num(), n.target_radian())
                    && got[5].pt() == *c
                    && got[6].num() == *r
            }
            _ => false,
        };
    ctx.check(ok, || format!("{b:?}: read back {got:?}"));
}

fn locate(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let i = c.at(0);
    let kind = i.at(0).at(0).int();
    let want = flip(st(c.at(1).at(0)), l.mirrored());
    let how = ctx.rng.next() % 60;
    let mut g = Prog::default();
    let p = g.pt(l.p(i.at(if kind < 5 { 3 } else { 4 }).pt()));
    let (loc, on) = match kind {
        3 => {
            let s = g.line(l.p(i.at(1).pt()), l.p(i.at(2).pt()));
            (g.op("locate_point_2_line_segment_2", &[R(p), R(s)]), Some(g.op("is_point_2_on_line_segment_2", &[R(p), R(s)])))
        }
        4 => {
            let s = g.circle(l.p(i.at(1).pt()), i.at(2).at(0).f().sqrt() * l.scale());
            (g.op("locate_point_2_circle_segment_2", &[R(p), R(s)]), Some(g.op("is_point_2_on_circle_segment_2", &[R(p), R(s)])))
        }
        5 => {
            let a = crate::curves::Cv::A((0.0, 0.0), i.at(1).at(0).f(), i.at(2).pt(), i.at(3).pt());
            let t = [(0, 0), (1, 1), (-1, -1)][(how % 3) as usize];
            let s = g.curve(&a.raw(l, false, t)).0;
            (g.op("locate_point_2_arc_segment_2", &[R(p), R(s)]), Some(g.op("is_point_2_on_arc_segment_2", &[R(p), R(s)])))
        }
        6 => {
            let mut v = vec![l.p(i.at(1).pt()), l.p(i.at(2).pt()), l.p(i.at(3).pt())];
            v.rotate_left((how % 3) as usize);
            if how % 2 == 0 {
                v.reverse();
            }
            let s = g.triangle(&v);
            (g.op("locate_point_2_triangle_2", &[R(p), R(s)]), None)
        }
        k => panic!("HARNESS: locate {k}"),
    };
    let v = match go(ctx, &g) {
        None => return,
        Some(v) => v,
    };
    use Point2Segment2Location as S;
    let e = v[loc].e();
    let got = match kind {
        3 if e == S::On as u32 => "on",
        3 if want == "off" && e <= 3 => "off",
        3 if e == S::Left as u32 => "left",
        3 if e == S::Right as u32 => "right",
        3 if e == S::Collinear as u32 => "collinear",
        4 if e == Point2Circle2Location::On as u32 => "on",
        4 if e == Point2Circle2Location::Inside as u32 => "inside",
        4 if e == Point2Circle2Location::Outside as u32 => "outside",
        5 if e == Point2ArcSegment2Location::On as u32 => "on",
        5 if e == Point2ArcSegment2Location::NotOn as u32 => "off",
        6 if e == Point2Triangle2Location::On as u32 => "on",
        6 if e == Point2Triangle2Location::Inside as u32 => "inside",
        6 if e == Point2Triangle2Location::Outside as u32 => "outside",
        _ => "?",
    };
    ctx.check(got == want, || format!("located {got} ({e}), specified {want}; program {}", g.text));
    if let Some(o) = on {
        ctx.check(v[o].is(want == "on"), || format!("predicate {:?}, specified {want}; program {}", v[o], g.text));
    }
}

fn proj(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let i = c.at(0);
    let exp: Vec<P2> = c.at(1).at(0).items().iter().map(|z| l.p(rat(z))).collect();
    let mut g = Prog::default();
    let p = g.pt(l.p(i.at(3).pt()));
    let s = g.line(l.p(i.at(1).pt()), l.p(i.at(2).pt()));
    let o = g.op("point_2_project_line_segment_2", &[R(p), R(s)]);
    if let Some(v) = go(ctx, &g) {
        let got: Vec<P2> = if v[o] == J::Null { vec![] } else { vec![v[o].pt()] };
        ctx.check(same_set(&got, &exp, TOL), || format!("projection {got:?}, specified {exp:?}; program {}", g.text));
    }
}

fn vec(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let (i, o) = (c.at(0), c.at(1));
    let mut g = Prog::default();
    match i.at(0).at(0).int() {
        1 => {
            let (u, w) = (i.at(1).pt(), i.at(2).pt());
            let (lu, lw) = (l.v(u), l.v(w));
            let (lu, lw) = ((lu.0 * l.s, lu.1 * l.s), (lw.0 * l.s, lw.1 * l.s));
            let sgn = if l.mirrored() { -1.0 } else { 1.0 };
            let k2 = l.scale() * l.scale();
            let (dot, cross) = (o.at(0).f() * k2, o.at(1).f() * k2 * sgn);
            let (nu, nw) = ((o.at(2).f() * k2).sqrt(), (o.at(3).f() * k2).sqrt());
            let (x, y) = (g.op("vector2_new", &[F(lu.0), F(lu.1)]), g.op("vector2_new", &[F(lw.0), F(lw.1)]));
            let d = g.op("vector2_dot", &[R(x), R(y)]);
            let k = g.op("vector2_cross", &[R(x), R(y)]);
            let n = g.op("vector2_length", &[R(x)]);
            let m = if nu > 0.0 { Some(g.op("vector2_normalize", &[R(x)])) } else { None };
            let r = if nu > 0.0 && nw > 0.0 { Some(g.op("vector2_radian_to", &[R(x), R(y)])) } else { None };
            let (p, q) = (g.pt(l.p(u)), g.pt(l.p(w)));
            let t = g.op("point2_distance", &[R(p), R(q)]);
            let e = g.op("point2_equals", &[R(p), R(q)]);
            let gv = g.op("point2_get_vector", &[R(q)]);
            let v = match go(ctx, &g) {
                None => return,
                Some(v) => v,
            };
            let dist = ((lu.0 - lw.0).powi(2) + (lu.1 - lw.1).powi(2)).sqrt();
            let what = || format!("program {}", g.text);
            ctx.check(v[x].pt() == lu && v[y].pt() == lw && v[p].pt() == l.p(u), || format!("read back {:?}, {:?}, {:?}; {}", v[x], v[y], v[p], what()));
            ctx.check(near(v[d].num(), dot), || format!("dot {:?}, specified {dot}; {}", v[d], what()));
            ctx.check(near(v[k].num(), cross), || format!("cross {:?}, specified {cross}; {}", v[k], what()));
            ctx.check(near(v[n].num(), nu), || format!("length {:?}, specified {nu}; {}", v[n], what()));
            ctx.check(near(v[t].num(), dist), || format!("distance {:?}, specified {dist}; {}", v[t], what()));
            ctx.check(v[e].is(u == w), || format!("equals {:?}, specified {}; {}", v[e], u == w, what()));
            ctx.check(v[gv].pt() == l.p(w), || format!("vector of a point {:?}; {}", v[gv], what()));
            if let Some(m) = m {
                ctx.check(close(v[m].pt(), (lu.0 / nu, lu.1 / nu), 1e-9), || format!("normalised {:?}; {}", v[m], what()));
            }
            if let Some(r) = r {
                let a = v[r].num();
                let (cs, sn) = (a.cos() * nu * nw, a.sin() * nu * nw);
                let w = 1f64.max(nu * nw) * 4e-9;
                ctx.check((cs - dot).abs() <= w && (sn - cross).abs() <= w && (-1e-9..=6.2831853172).contains(&a), || {
                    format!("radian_to {a}, specified |u||v|(cos, sin) = ({dot}, {cross}); {}", what())
                });
            }
        }
        2 => {
            let want = flip(st(o.at(0)), l.mirrored());
            let p: Vec<usize> = (1..4).map(|k| g.pt(l.p(i.at(k).pt()))).collect();
            let t = g.op("point2_turn", &[R(p[0]), R(p[1]), R(p[2])]);
            if let Some(v) = go(ctx, &g) {
                let e = v[t].e();
                let got = if e == TurnDirection::Left as u32 {
                    "left"
                } else if e == TurnDirection::Right as u32 {
                    "right"
                } else if e == TurnDirection::Collinear as u32 {
                    "collinear"
                } else {
                    "?"
                };
                ctx.check(got == want, || format!("turn {got} ({e}), specified {want}; program {}", g.text));
            }
        }
        k => panic!("HARNESS: vec {k}"),
    }
}

fn hull(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let mut pts: Vec<P2> = c.at(0).items().iter().map(|p| l.p(p.pt())).collect();
    let mut exp: Vec<P2> = c.at(1).items().iter().map(|p| l.p(p.pt())).collect();
    if l.mirrored() {
        exp.reverse();
    }
    let k = (0..exp.len()).min_by(|a, b| exp[*a].partial_cmp(&exp[*b]).unwrap()).unwrap();
    exp.rotate_left(k);
    for i in (1..pts.len()).rev() {
        pts.swap(i, ctx.rng.below(i as u64 + 1) as usize);
    }
    let mut g = Prog::default();
    let a = g.points(&pts);
    let h = g.op("convexhull2_new", &[a]);
    let (x, y) = (g.op("convexhull2_convex_hull", &[R(h)]), g.op("convexhull2_convex_hull", &[R(h)]));
    if let Some(v) = go(ctx, &g) {
        ctx.check(v[x].pts() == exp && v[y].pts() == exp, || {
            format!("hull of {pts:?}: {:?}, again {:?}, specified {exp:?}", v[x], v[y])
        });
    }
}

fn poly(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let v: Vec<P2> = c.at(0).items().iter().map(|p| p.pt()).collect();
    let simple = c.at(1).at(0).bool();
    let (p, back) = turned(&mut ctx.rng, &v, l);
    let k2 = l.scale() * l.scale();
    let sign = if back != l.mirrored() { -1.0 } else { 1.0 };
    let area = c.at(1).at(1).f() / 2.0 * k2 * sign;
    let mut g = Prog::default();
    let s = g.polygon(&p);
    let a = g.op("polygon2_area", &[R(s)]);
    let vs = g.op("polygon2_vertices", &[R(s)]);
    let es = g.op("polygon2_edges", &[R(s)]);
    let si = g.op("polygon2_is_simple", &[R(s)]);
    let cv = g.op("polygon2_is_convex", &[R(s)]);
    // the points around, in the order of the specification
    let locs = c.at(1).at(3).items();
    let mut asked = vec![];
    if simple && !locs.is_empty() {
        let lo = |k: fn(&P2) -> f64| v.iter().map(k).fold(f64::MAX, f64::min);
        let hi = |k: fn(&P2) -> f64| v.iter().map(k).fold(f64::MIN, f64::max);
        let (x0, y0) = (lo(|p| p.0) - 0.5, lo(|p| p.1) - 0.5);
        let h = ((hi(|p| p.1) + 0.5 - y0) * 2.0) as usize + 1;
        for (i, w) in locs.iter().enumerate() {
            if ctx.rng.below(4) == 0 {
                let q = g.pt(l.p((x0 + 0.5 * (i / h) as f64, y0 + 0.5 * (i % h) as f64)));
                asked.push((g.op("locate_point_2_polygon_2", &[R(q), R(s)]), w.int()));
            }
        }
    }
    // given away last
    let ears = if simple { Some(g.op("earcut", &[R(s)])) } else { None };
    let r = match go(ctx, &g) {
        None => return,
        Some(r) => r,
    };
    let n = p.len();
    ctx.check(near(r[a].num(), area), || format!("polygon {p:?}: area {:?}, specified {area}", r[a]));
    ctx.check(r[vs].pts() == p, || format!("polygon {p:?}: vertices {:?}", r[vs]));
    let want: Vec<(P2, P2)> = (0..n).map(|i| (p[i], p[(i + 1) % n])).collect();
    let got: Vec<(P2, P2)> = r[es].list().iter().map(|e| (e.list()[0].pt(), e.list()[1].pt())).collect();
    ctx.check(got == want, || format!("polygon {p:?}: edges {got:?}"));
    ctx.check(r[si].is(simple), || format!("polygon {p:?}: is_simple {:?}, specified {simple}", r[si]));
    if simple {
        let w = c.at(1).at(2).bool();
        ctx.check(r[cv].is(w), || format!("polygon {p:?}: is_convex {:?}, specified {w}", r[cv]));
    }
    for (o, w) in asked {
        let e = [Point2Polygon2Location::Outside, Point2Polygon2Location::Inside, Point2Polygon2Location::On][w as usize] as u32;
        if !ctx.check(r[o].e() == e, || format!("located {:?}, specified {e} ({w}: 0 outside, 1 inside, 2 on); program {}", r[o], g.text)) {
            return;
        }
    }
    if let Some(o) = ears {
        let q: Vec<Point2<f64>> = p.iter().map(|p| Point2::new(p.0, p.1)).collect();
        if let Ok(t) = ctx.call(|| earcut_2(Polygon2::new(q))) {
            let got: Vec<Vec<usize>> = r[o].list().iter().map(|t| t.list().iter().map(|i| i.num() as usize).collect()).collect();
            let want: Vec<Vec<usize>> = t.iter().map(|t| t.to_vec()).collect();
            ctx.check(got == want, || format!("polygon {p:?}: triangles {got:?}, natively {want:?}"));
        }
    }
}

fn swept(ctx: &mut Ctx, c: &Val, l: &Lift) {
    let cs: Vec<_> = c.at(0).items().iter().map(sweep::curve).collect();
    let n = cs.len();
    let mut pairs = vec![];
    let mut same = false;
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            let e = c.at(1).at(0).at(k);
            k += 1;
            pairs.push((i, j, e.at(0).items().iter().map(crate::curves::surd).collect::<Vec<P2>>()));
            same |= e.at(1).bool();
        }
    }
    if same {
        return;
    }
    let exp = sweep::union(&pairs, &vec![true; n], l);
    let mut r = Rng::new(ctx.rng.next());
    let mut g = Prog::default();
    let s = g.op("sweepsegment2intersection_new", &[]);
    for i in 0..n {
        let raw = cs[i].raw(l, r.below(2) == 1, (0, 0));
        let o = g.segment(&raw, &mut r);
        g.op("sweepsegment2intersection_push_segment", &[R(s), R(o)]);
    }
    let (x, y) = (g.op("sweepsegment2intersection_intersection", &[R(s)]), g.op("sweepsegment2intersection_intersection", &[R(s)]));
    if let Some(v) = go(ctx, &g) {
        for i in [x, y] {
            let got = v[i].pts();
            if !ctx.check(same_set(&got, &exp, TOL), || format!("sweep {got:?}, specified {exp:?}; program {}", g.text)) {
                return;
            }
        }
    }
}

pub fn check(ctx: &mut Ctx, fam: &str, c: &Val) {
    let mut r = Rng::new(ctx.rng.next());
    let mut lifts = if ctx.tier > 0 { Lift::some(&mut r, 2) } else { vec![Lift::random(&mut r)] };
    if r.below(4) == 0 {
        lifts.push(Lift::skew(&mut r));
    }
    for l in &lifts {
        match fam {
            "segseg" | "segcirc" | "circcirc" | "arc" => pair(ctx, fam, c, l),
            "locate" => locate(ctx, c, l),
            "proj" => proj(ctx, c, l),
            "vec" => vec(ctx, c, l),
            "hull" => hull(ctx, c, l),
            "poly" => poly(ctx, c, l),
            "sweep" => swept(ctx, c, l),
            _ => panic!("HARNESS: family {fam}"),
        }
    }
    ctx.sample(|| c.to_string().chars().take(300).collect());
}

// ---- machines ---------------------------------------------------------------------------------
fn tup(v: Vec<Val>) -> Val {
    Val::T(v)
}
fn name(op: &Val) -> &str {
    st(op.at(0))
}
/// A session of calls on objects that stay alive.
struct Session {
    n: usize,
}
impl Session {
    fn new() -> Session {
        let _ = send("R");
        Session { n: 0 }
    }
    fn run(&mut self, f: impl FnOnce(&mut Prog)) -> Result<Vec<J>, String> {
        let mut g = Prog { text: String::new(), n: self.n };
        f(&mut g);
        let st = self.n;
        self.n = g.n;
        let r = send(&format!("K{}]", g.text))?;
        // results by step of the whole session
        let mut v = vec![J::Null; st];
        v.extend(r);
        Ok(v)
    }
}
impl Drop for Session {
    fn drop(&mut self) {
        let _ = send("R");
    }
}
/// The point with integer coordinates at p, or its text.
fn grid(p: P2) -> Val {
    let (x, y) = (p.0.round(), p.1.round());
    if close(p, (x, y), TOL) {
        tup(vec![Val::I(x as i64), Val::I(y as i64)])
    } else {
        Val::S(format!("{p:?}"))
    }
}

/// Binding.tla
pub struct Segment {
    s: Session,
    seg: usize,
    sweep: usize,
    kinds: [u32; 3],
}
fn catalogue(i: usize) -> Raw {
    let pi = std::f64::consts::PI;
    [
        Raw::L((2.0, 5.0), (6.0, 5.0)),
        Raw::L((3.0, -6.0), (3.0, 6.0)),
        Raw::C((0.0, 0.0), 5.0),
        Raw::C((6.0, 0.0), 5.0),
        Raw::A((7.0, 1.0), 5.0, pi / 2.0, pi),
        Raw::A((0.0, 8.0), 5.0, 1.5 * pi, 2.0 * pi),
    ][i - 1]
}
const SLOT: [&str; 3] = ["line_segment_2", "circle_segment_2", "arc_segment_2"];
impl Machine for Segment {
    fn new(_: &mut Rng) -> Self {
        let mut s = Session::new();
        let kinds = TYPES.map(|t| t as u32);
        let (mut seg, mut sweep) = (0, 0);
        let _ = s.run(|g| {
            seg = g.op("segment2_new", &[E(kinds[0]), O(None), O(None), O(None)]);
            sweep = g.op("sweepsegment2intersection_new", &[]);
        });
        Segment { s, seg, sweep, kinds }
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        let (seg, sweep, kinds) = (self.seg, self.sweep, self.kinds);
        let mut res = None;
        let mut back = [0; 4];
        let v = self.s.run(|g| {
            match name(op) {
                "kind" => {
                    g.op("__wbg_set_segment2_segment_type", &[R(seg), E(kinds[op.at(1).int() as usize - 1])]);
                }
                "slot" => {
                    let (k, v) = (op.at(1).int() as usize, op.at(2).int() as usize);
                    let o = if v == 0 { None } else { Some(g.curve(&catalogue(2 * (k - 1) + v)).0) };
                    g.op(&format!("__wbg_set_segment2_{}", SLOT[k - 1]), &[R(seg), O(o)]);
                }
                "push" => {
                    g.op("sweepsegment2intersection_push_segment", &[R(sweep), R(seg)]);
                }
                "query" => res = Some((g.op("sweepsegment2intersection_intersection", &[R(sweep)]), None)),
                "probe" => {
                    let j = op.at(1).int() as usize;
                    let (c, k) = g.curve(&catalogue(j));
                    let mut s = [None; 3];
                    s[k] = Some(c);
                    let p = g.op("segment2_new", &[E(kinds[k]), O(s[0]), O(s[1]), O(s[2])]);
                    let a = g.op("segment_2_segment_2_intersection", &[R(seg), R(p)]);
                    res = Some((a, Some(g.op("is_segment_2_segment_2_intersected", &[R(p), R(seg)]))));
                }
                o => panic!("HARNESS: {o}"),
            }
            back[0] = g.op("__wbg_get_segment2_segment_type", &[R(seg)]);
            for k in 0..3 {
                back[k + 1] = g.op(&format!("__wbg_get_segment2_{}", SLOT[k]), &[R(seg)]);
            }
        })?;
        let kind = kinds.iter().position(|k| *k == v[back[0]].e()).map_or(-1, |k| k as i64 + 1);
        let slots = (0..3)
            .map(|k| {
                let j = &v[back[k + 1]];
                if *j == J::Null {
                    return Val::I(0);
                }
                let is = |i: usize| match (catalogue(i), j.list()) {
                    (Raw::L(a, b), [x, y]) => k == 0 && x.pt() == a && y.pt() == b,
                    (Raw::C(c, r), [x, y]) => k == 1 && x.pt() == c && y.num() == r,
                    (a @ Raw::A(c, r, _, _), [x, y, z, w]) => match a.make::<f64>() {
                        Obj::A(n) => k == 2 && x.pt() == c && y.num() == r && near(z.num(), n.source_radian()) && near(w.num(), n.target_radian()),
                        _ => false,
                    },
                    _ => false,
                };
                match [1, 2].into_iter().find(|i| is(2 * k + i)) {
                    Some(i) => Val::I(i as i64),
                    None => Val::S(format!("{j:?}")),
                }
            })
            .collect();
        let mut pts: Vec<P2> = res.map_or(vec![], |r| v[r.0].pts());
        pts.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        if let Some((a, Some(b))) = res {
            if !v[b].is(!v[a].list().is_empty()) {
                return Err(format!("predicate {:?}, points {:?}", v[b], v[a]));
            }
        }
        let mut pts: Vec<Val> = pts.into_iter().map(grid).collect();
        pts.sort_by_key(|p| match p {
            Val::T(v) => (v[0].int(), v[1].int()),
            _ => (i64::MAX, 0),
        });
        Ok(tup(vec![Val::I(kind), tup(slots), tup(pts)]))
    }
}

/// Triangle.tla
pub struct WTri {
    s: Session,
    lift: Lift,
    t: usize,
    back: Vec<(P2, Val)>,
}
impl Machine for WTri {
    fn new(rng: &mut Rng) -> Self {
        let mut lift = Lift::random(rng);
        while lift.mirrored() {
            lift = Lift::random(rng);
        }
        WTri { s: Session::new(), lift, t: 0, back: vec![] }
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        let mut t = self.t;
        let (lift, mut back) = (self.lift, vec![]);
        let mut o = [0; 7];
        let v = self.s.run(|g| {
            match name(op) {
                "new" => {
                    back = (1..4).map(|i| (lift.p(op.at(i).pt()), op.at(i).clone())).collect();
                    t = g.triangle(&[back[0].0, back[1].0, back[2].0]);
                }
                _ => {
                    g.op("triangle2_reverse_orientation", &[R(t)]);
                }
            }
            for (i, n) in ["a", "b", "c", "vertices", "edges", "orientation", "area"].iter().enumerate() {
                o[i] = g.op(&format!("triangle2_{n}"), &[R(t)]);
            }
        })?;
        self.t = t;
        if !back.is_empty() {
            self.back = back;
        }
        let pt = |p: P2| self.back.iter().find(|b| b.0 == p).map_or(Val::S(format!("{p:?}")), |b| b.1.clone());
        let corners: Vec<Val> = (0..3).map(|i| pt(v[o[i]].pt())).collect();
        if v[o[3]].pts().into_iter().map(pt).collect::<Vec<_>>() != corners {
            return Err("vertices() are not the corners a, b, c".into());
        }
        let edges = v[o[4]].list().iter().map(|e| tup(e.pts().into_iter().map(pt).collect())).collect();
        let area = v[o[6]].num() * 2.0 / self.lift.scale().powi(2);
        Ok(tup(vec![
            Val::B(v[o[5]].e() == Orientation::CounterClockwise as u32),
            if (area - area.round()).abs() < 1e-9 { Val::I(area.round() as i64) } else { Val::S(format!("{area}")) },
            tup(corners),
            tup(edges),
        ]))
    }
}
