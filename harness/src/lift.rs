//! Exact symmetries of the plane (integer matrix, power-of-two scale, translation): the same
//! case is replayed in many places, in all orientations and at several sizes.
use crate::ctx::Rng;
use rcgal::kernel::{number_type::NumberType, point_2::Point2, vector_2::Vector2};

#[derive(Clone, Copy, Debug)]
pub struct Lift {
    pub m: [i64; 4],
    pub s: f64,
    pub t: (f64, f64),
}

pub const DIHEDRAL: [[i64; 4]; 8] = [
    [1, 0, 0, 1],
    [0, -1, 1, 0],
    [-1, 0, 0, -1],
    [0, 1, -1, 0],
    [1, 0, 0, -1],
    [-1, 0, 0, 1],
    [0, 1, 1, 0],
    [0, -1, -1, 0],
];

impl Lift {
    pub fn id() -> Self {
        Lift { m: DIHEDRAL[0], s: 1.0, t: (0.0, 0.0) }
    }
    /// All eight orientations in place, and `extra` random placements.
    pub fn all(rng: &mut Rng, extra: usize) -> Vec<Lift> {
        let mut v: Vec<Lift> = DIHEDRAL
            .iter()
            .map(|m| Lift { m: *m, s: 1.0, t: (0.0, 0.0) })
            .collect();
        for _ in 0..extra {
            v.push(Self::random(rng));
        }
        v
    }
    /// The identity, one random orientation, `extra` random placements.
    pub fn some(rng: &mut Rng, extra: usize) -> Vec<Lift> {
        let mut v = vec![Lift::id()];
        let m = DIHEDRAL[1 + rng.below(7) as usize];
        v.push(Lift { m, s: 1.0, t: (0.0, 0.0) });
        for _ in 0..extra {
            v.push(Self::random(rng));
        }
        v
    }
    pub fn random(rng: &mut Rng) -> Lift {
        const S: [f64; 8] = [0.25, 0.5, 1.0, 1.0, 2.0, 4.0, 3.0, 8.0];
        Lift {
            m: DIHEDRAL[rng.below(8) as usize],
            s: S[rng.below(8) as usize],
            t: (rng.range(-64, 64) as f64, rng.range(-64, 64) as f64),
        }
    }
    /// Coordinates in the thousands.
    pub fn large(rng: &mut Rng) -> Lift {
        const S: [f64; 6] = [64.0, 100.0, 128.0, 99.0, 77.0, 50.0];
        Lift {
            m: DIHEDRAL[rng.below(8) as usize],
            s: S[rng.below(6) as usize],
            t: (rng.range(-2000, 2000) as f64, rng.range(-2000, 2000) as f64),
        }
    }
    /// Sizes of a few thousandths or hundredths, near the origin.
    pub fn tiny(rng: &mut Rng) -> Lift {
        const S: [f64; 8] = [0.01, 0.0625, 0.03, 0.015625, 0.001, 0.002, 0.0009765625, 0.004];
        Lift {
            m: DIHEDRAL[rng.below(8) as usize],
            s: S[rng.below(8) as usize],
            t: (rng.range(-2, 2) as f64, rng.range(-2, 2) as f64),
        }
    }
    /// A case of large coordinates made so small that its steps are about a millionth.
    pub fn minute(rng: &mut Rng) -> Lift {
        Lift {
            m: DIHEDRAL[rng.below(8) as usize],
            s: 1.0 / (1u64 << (14 + rng.below(7))) as f64,
            t: (rng.range(-2, 2) as f64, rng.range(-2, 2) as f64),
        }
    }
    /// For a case that reaches that far: often none, otherwise one of the extreme sizes.
    pub fn extreme_of(rng: &mut Rng, reach: f64) -> Option<Lift> {
        if reach < 100.0 {
            Self::extreme(rng)
        } else {
            Some(Self::minute(rng))
        }
    }
    /// Often none, otherwise one of the extreme sizes.
    pub fn extreme(rng: &mut Rng) -> Option<Lift> {
        match rng.below(6) {
            0 => Some(Self::large(rng)),
            1 => Some(Self::tiny(rng)),
            _ => None,
        }
    }
    /// Similarities other than the symmetries of the square: rotation with scaling by an
    /// integer vector (a, b).
    pub fn skew(rng: &mut Rng) -> Lift {
        const V: [(i64, i64); 8] =
            [(1, 1), (2, 1), (1, 2), (3, 4), (4, 3), (1, 3), (5, 12), (2, 3)];
        let (a, b) = V[rng.below(8) as usize];
        let d = DIHEDRAL[rng.below(8) as usize];
        let m = [a, -b, b, a];
        Lift {
            m: [
                m[0] * d[0] + m[1] * d[2],
                m[0] * d[1] + m[1] * d[3],
                m[2] * d[0] + m[3] * d[2],
                m[2] * d[1] + m[3] * d[3],
            ],
            s: 1.0,
            t: (rng.range(-20, 20) as f64, rng.range(-20, 20) as f64),
        }
    }
    pub fn mirrored(&self) -> bool {
        self.m[0] * self.m[3] - self.m[1] * self.m[2] < 0
    }
    /// Length factor.
    pub fn scale(&self) -> f64 {
        let k = ((self.m[0] * self.m[0] + self.m[2] * self.m[2]) as f64).sqrt();
        k * self.s
    }
    pub fn v(&self, p: (f64, f64)) -> (f64, f64) {
        (
            self.m[0] as f64 * p.0 + self.m[1] as f64 * p.1,
            self.m[2] as f64 * p.0 + self.m[3] as f64 * p.1,
        )
    }
    pub fn p(&self, p: (f64, f64)) -> (f64, f64) {
        let (x, y) = self.v(p);
        (self.s * x + self.t.0, self.s * y + self.t.1)
    }
    pub fn pt<T: NumberType>(&self, p: (f64, f64)) -> Point2<T> {
        let (x, y) = self.p(p);
        Point2::new(T::from_f64(x), T::from_f64(y))
    }
    pub fn vec<T: NumberType>(&self, p: (f64, f64)) -> Vector2<T> {
        let (x, y) = self.v(p);
        Vector2::new(T::from_f64(self.s * x), T::from_f64(self.s * y))
    }
}

pub fn xy<T: NumberType + Into<f64>>(p: &Point2<T>) -> (f64, f64) {
    (p.x().into(), p.y().into())
}

pub fn close(a: (f64, f64), b: (f64, f64), tol: f64) -> bool {
    let m = 1f64.max(a.0.abs()).max(a.1.abs());
    (a.0 - b.0).abs() <= tol * m && (a.1 - b.1).abs() <= tol * m
}

/// The two lists are the same set of points, and `got` lists no point twice.
pub fn same_set(got: &[(f64, f64)], exp: &[(f64, f64)], tol: f64) -> bool {
    got.len() == exp.len()
        && exp.iter().all(|e| got.iter().any(|g| close(*e, *g, tol)))
        && got.iter().all(|g| exp.iter().any(|e| close(*e, *g, tol)))
}
pub const TOL: f64 = 1e-8;
