//! The objects that are walked: the ordered tree, the circular list, the priority queue,
//! half-edge records and triangles.
use crate::ctx::Rng;
use crate::lift::*;
use crate::val::Val;
use crate::walk::Machine;
use rcgal::data_structure::avl_tree::{AVLTree, AVLTreeOption};
use rcgal::data_structure::circular_doubly_linked_list::{CircularDoubleLinkedList, ListNode};
use rcgal::data_structure::priority_queue::PriorityQueue;
use rcgal::kernel::segment_2::Segment2;
use rcgal::kernel::util_enum::{Edge2Type, Orientation};
use rcgal::kernel::{edge_2::Edge2, triangle_2::Triangle2, vertex_2::Vertex2};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::rc::Rc;

fn name(op: &Val) -> &str {
    match op.at(0) {
        Val::S(s) => s,
        v => panic!("HARNESS: operation {v:?}"),
    }
}
fn tup(v: Vec<Val>) -> Val {
    Val::T(v)
}
fn int(i: i64) -> Val {
    Val::I(i)
}

thread_local!(static CMPS: Cell<u64> = const { Cell::new(0) });
/// A key that counts comparisons.  The tag is not compared.
#[derive(Debug, Clone, Copy)]
pub struct Key {
    pub k: i64,
    pub tag: i64,
}
fn count() {
    CMPS.with(|c| c.set(c.get() + 1));
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.replace(0))
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        count();
        self.k == o.k
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<Ordering> {
        count();
        Some(self.k.cmp(&o.k))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> Ordering {
        count();
        self.k.cmp(&o.k)
    }
}
/// Logarithmic: several times what a balanced tree needs.
pub fn bound(n: usize) -> u64 {
    5 * (64 - (n as u64 + 1).leading_zeros() as u64) + 5
}

// ---- ordered tree -----------------------------------------------------------------------
pub struct Tree<const BAG: bool>(pub AVLTree<Key>);
pub fn listed(t: &AVLTree<Key>) -> Val {
    tup(t.mid_order_traversal().iter().map(|k| tup(vec![int(k.k), int(k.tag)])).collect())
}
impl<const BAG: bool> Machine for Tree<BAG> {
    fn new(_: &mut Rng) -> Self {
        Tree(AVLTree::new(if BAG { AVLTreeOption::SameNodeInsertRight } else { AVLTreeOption::DisableSameNode }))
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        let n = self.0.mid_order_traversal().len();
        cmps();
        match name(op) {
            "insert" => self.0.insert(Key { k: op.at(1).int(), tag: op.at(2).int() }),
            "delete" => self.0.delete(Key { k: op.at(1).int(), tag: 0 }),
            "clear" => self.0.clear(),
            o => panic!("HARNESS: {o}"),
        }
        let c = cmps();
        if c > bound(n) {
            return Err(format!("{c} comparisons with {n} elements, more than logarithmic ({})", bound(n)));
        }
        Ok(listed(&self.0))
    }
}

// ---- circular list ----------------------------------------------------------------------
type NodeRc = Rc<RefCell<ListNode<i64>>>;
pub struct Ring {
    list: CircularDoubleLinkedList<i64>,
    live: BTreeMap<i64, NodeRc>,
    all: Vec<NodeRc>,
}
impl Drop for Ring {
    fn drop(&mut self) {
        for n in &self.all {
            if let Ok(mut n) = n.try_borrow_mut() {
                n.next = None;
                n.prev = None;
            }
        }
    }
}
impl Ring {
    fn add(&mut self, at: Option<NodeRc>, d: i64) -> Result<(), String> {
        let n = self.list.insert(at, d);
        if n.borrow().data != d {
            return Err("the returned node does not hold the new element".into());
        }
        self.all.push(n.clone());
        self.live.insert(d, n);
        Ok(())
    }
    fn observe(&self) -> Result<Val, String> {
        let (head, tail) = (self.list.head(), self.list.tail());
        if self.list.len() != self.live.len() {
            return Err(format!("length {} of {} elements", self.list.len(), self.live.len()));
        }
        let (head, tail) = match (head, tail) {
            (None, None) => return Ok(tup(vec![])),
            (Some(h), Some(t)) => (h, t),
            _ => return Err("only one of head and tail".into()),
        };
        let mut out = vec![];
        let mut x = head.clone();
        loop {
            out.push(int(x.borrow().data));
            if out.len() > self.live.len() {
                return Err("following next does not return to the head".into());
            }
            match self.live.get(&x.borrow().data) {
                Some(n) if Rc::ptr_eq(n, &x) => {}
                _ => return Err("following next leads to an element that is not live".into()),
            }
            let y = x.borrow().next.clone().ok_or("an element without next")?;
            let z = y.borrow().prev.clone().ok_or("an element without prev")?;
            if !Rc::ptr_eq(&x, &z) {
                return Err("prev is not the inverse of next".into());
            }
            if Rc::ptr_eq(&y, &head) {
                break;
            }
            x = y;
        }
        if !Rc::ptr_eq(&x, &tail) {
            return Err("the tail is not the last element".into());
        }
        Ok(tup(out))
    }
}
impl Machine for Ring {
    fn new(_: &mut Rng) -> Self {
        Ring { list: CircularDoubleLinkedList::new(), live: BTreeMap::new(), all: vec![] }
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        match name(op) {
            "first" => self.add(None, op.at(1).int())?,
            "after" => {
                let at = self.live.get(&op.at(1).int()).cloned();
                assert!(at.is_some(), "HARNESS: no such element");
                self.add(at, op.at(2).int())?
            }
            "delete" => {
                let n = self.live.remove(&op.at(1).int());
                assert!(n.is_some(), "HARNESS: no such element");
                self.list.delete(n);
            }
            "deletenone" => self.list.delete(None),
            o => panic!("HARNESS: {o}"),
        }
        self.observe()
    }
}

// ---- priority queue ---------------------------------------------------------------------
pub struct Queue(PriorityQueue<Key>);
impl Machine for Queue {
    fn new(_: &mut Rng) -> Self {
        Queue(PriorityQueue::new())
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        let mut r = vec![];
        match name(op) {
            "push" => self.0.push(Key { k: op.at(1).int(), tag: op.at(2).int() }),
            "pop" => {
                if let Some(k) = self.0.pop() {
                    r = vec![int(k.k), int(k.tag)];
                }
            }
            "clear" => self.0.clear(),
            o => panic!("HARNESS: {o}"),
        }
        Ok(tup(vec![tup(r), Val::B(self.0.is_empty())]))
    }
    fn drain() -> Option<&'static str> {
        Some("<<\"pop\">>")
    }
}

// ---- half edges -------------------------------------------------------------------------
type VRc = Rc<RefCell<Vertex2<f64>>>;
type ERc = Rc<RefCell<Edge2<f64>>>;
pub struct HalfEdge<const NV: usize, const NE: usize, const LINKS: bool> {
    v: Vec<VRc>,
    e: Vec<ERc>,
    xy: Vec<(f64, f64)>,
}
impl<const NV: usize, const NE: usize, const LINKS: bool> Drop for HalfEdge<NV, NE, LINKS> {
    fn drop(&mut self) {
        // links and lists form cycles
        let nv: VRc = Rc::new(RefCell::new(Vertex2::new(0.0, 0.0)));
        for e in &self.e {
            let blank = Edge2::new_segment(nv.clone(), nv.clone());
            if let Ok(mut x) = e.try_borrow_mut() {
                let old = std::mem::replace(&mut *x, blank);
                drop(x);
                drop(old);
            }
        }
        for v in &self.v {
            if let Ok(mut x) = v.try_borrow_mut() {
                let old = std::mem::replace(&mut *x, Vertex2::new(0.0, 0.0));
                drop(x);
                drop(old);
            }
        }
    }
}
impl<const NV: usize, const NE: usize, const LINKS: bool> Machine for HalfEdge<NV, NE, LINKS> {
    fn new(rng: &mut Rng) -> Self {
        let mut xy: Vec<(f64, f64)> = vec![];
        while xy.len() + 1 < NV {
            let w = 1 + rng.below(3) as i64;
            let p = (rng.range(-w, w) as f64 * 0.5, rng.range(-w, w) as f64);
            if !xy.contains(&p) {
                xy.push(p);
            }
        }
        xy.push(xy[0]);
        let v: Vec<VRc> = xy.iter().map(|p| Rc::new(RefCell::new(Vertex2::new(p.0, p.1)))).collect();
        let ends: Vec<(usize, usize)> = (1..=NE)
            .map(|e| match e {
                1 => (1, 2),
                2 => (NV, 2),
                3 => (2, 1),
                _ => (2, 3),
            })
            .collect();
        let e = ends
            .iter()
            .enumerate()
            .map(|(i, (s, t))| {
                let (s, t) = (v[s - 1].clone(), v[t - 1].clone());
                Rc::new(RefCell::new(if LINKS && i % 2 == 1 { Edge2::new_arc(s, t) } else { Edge2::new_segment(s, t) }))
            })
            .collect();
        HalfEdge { v, e, xy }
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        let (i, j) = (op.at(1).int() as usize - 1, op.at(2).int() as usize - 1);
        match name(op) {
            "add" => self.v[i].borrow_mut().add_edge(self.e[j].clone()),
            "remove" => {
                // through an equal copy now and then: edges are removed by what they join
                let e = self.e[j].clone();
                let mut v = self.v[i].borrow().clone();
                v.remove_edge(e);
                *self.v[i].borrow_mut() = v;
            }
            "source" => self.e[i].borrow_mut().set_source(self.v[j].clone()),
            "target" => self.e[i].borrow_mut().set_target(self.v[j].clone()),
            "twin" => self.e[i].borrow_mut().set_twin(self.e[j].clone()),
            "next" => self.e[i].borrow_mut().set_next(self.e[j].clone()),
            "prev" => self.e[i].borrow_mut().set_prev(self.e[j].clone()),
            o => panic!("HARNESS: {o}"),
        }
        self.observe()
    }
}
impl<const NV: usize, const NE: usize, const LINKS: bool> HalfEdge<NV, NE, LINKS> {
    fn ve(&self, x: &VRc) -> i64 {
        self.v.iter().position(|y| Rc::ptr_eq(x, y)).map_or(-1, |i| i as i64 + 1)
    }
    fn ed(&self, x: &ERc) -> i64 {
        self.e.iter().position(|y| Rc::ptr_eq(x, y)).map_or(-1, |i| i as i64 + 1)
    }
    fn observe(&self) -> Result<Val, String> {
        let link = |x: Option<ERc>| int(x.map_or(0, |x| self.ed(&x)));
        let adj = self.v.iter().map(|v| tup(v.borrow().edges().iter().map(|e| int(self.ed(e))).collect())).collect();
        let mut ends = vec![];
        let mut links = vec![];
        let mut kinds = vec![];
        for e in &self.e {
            let e = e.borrow();
            let (s, t) = (self.ve(&e.source()), self.ve(&e.target()));
            ends.push(tup(vec![int(s), int(t)]));
            links.push(tup(vec![link(e.twin()), link(e.next()), link(e.prev())]));
            kinds.push(Val::S(if e.edge_type() == Edge2Type::Arc { "arc" } else { "segment" }.into()));
            let g = e.to_segment();
            let (p, q) = (xy(&g.source()), xy(&g.target()));
            if s < 1 || t < 1 || p != self.xy[s as usize - 1] || q != self.xy[t as usize - 1] {
                return Err(format!("the straight form joins {p:?} and {q:?}"));
            }
        }
        for (v, p) in self.v.iter().zip(&self.xy) {
            let v = v.borrow();
            if (v.x(), v.y()) != *p || xy(&v.to_point()) != *p {
                return Err("a vertex moved".into());
            }
        }
        let equal = if LINKS {
            vec![]
        } else {
            let eq = |a: &ERc, b: &ERc| Val::B(*a.borrow() == *b.borrow());
            self.e.iter().map(|a| tup(self.e.iter().map(|b| eq(a, b)).collect())).collect()
        };
        let veq = |a: &VRc, b: &VRc| {
            let (a, b) = (a.borrow(), b.borrow());
            let r = *a == *b;
            Val::B(if a.equals(&b) == r && (a.cmp(&b) == Ordering::Equal) == r { r } else { !(a.x() == b.x() && a.y() == b.y()) })
        };
        let same = self.v.iter().map(|a| tup(self.v.iter().map(|b| veq(a, b)).collect())).collect();
        Ok(tup(vec![tup(adj), tup(ends), tup(links), tup(kinds), tup(equal), tup(same)]))
    }
}

// ---- triangle ---------------------------------------------------------------------------
pub struct Tri {
    lift: Lift,
    t: Option<Triangle2<f64>>,
    back: Vec<((f64, f64), Val)>,
}
impl Machine for Tri {
    fn new(rng: &mut Rng) -> Self {
        let mut lift = Lift::random(rng);
        while lift.mirrored() {
            lift = Lift::random(rng);
        }
        Tri { lift, t: None, back: vec![] }
    }
    fn apply(&mut self, op: &Val) -> Result<Val, String> {
        match name(op) {
            "new" => {
                let p: Vec<&Val> = (1..4).map(|i| op.at(i)).collect();
                self.back = p.iter().map(|v| (self.lift.p(v.pt()), (*v).clone())).collect();
                let q = |i: usize| self.lift.pt::<f64>(p[i].pt());
                self.t = Some(Triangle2::new(q(0), q(1), q(2)));
            }
            "reverse" => self.t.as_mut().unwrap().reverse_orientation(),
            o => panic!("HARNESS: {o}"),
        }
        let t = self.t.as_ref().unwrap();
        let pt = |p: (f64, f64)| self.back.iter().find(|b| b.0 == p).map_or(Val::S(format!("{p:?}")), |b| b.1.clone());
        let area = t.area() * 2.0 / self.lift.scale().powi(2);
        let corners = vec![pt(xy(&t.a())), pt(xy(&t.b())), pt(xy(&t.c()))];
        if t.vertices().iter().map(|p| pt(xy(p))).collect::<Vec<_>>() != corners {
            return Err("vertices() are not the corners a, b, c".into());
        }
        let edges = t.edges().iter().map(|e| tup(vec![pt(xy(&e.source())), pt(xy(&e.target()))])).collect();
        Ok(tup(vec![
            Val::B(t.orientation() == Orientation::CounterClockwise),
            if (area - area.round()).abs() < 1e-9 { int(area.round() as i64) } else { Val::S(format!("{area}")) },
            tup(corners),
            tup(edges),
        ]))
    }
}
