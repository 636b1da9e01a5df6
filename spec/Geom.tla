-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact plane geometry over the integers.                                 *)
(*   point      <<x, y>>                integers                            *)
(*   rational   <<n, d>>  d > 0, lowest terms                               *)
(*   rat point  <<nx, ny, d>>  ((nx/d), (ny/d)), d > 0, lowest terms         *)
(*   surd point <<ax, bx, ay, by, d, s>>  ((ax + bx*sqrt(d))/s, ...), s > 0  *)
(* TLC integers are 32 bit and overflow is an error, so a result that TLC   *)
(* prints is exact.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE GcdNat(_, _)
GcdNat(a, b) == IF b = 0 THEN a ELSE GcdNat(b, a % b)
Gcd(a, b) == GcdNat(Abs(a), Abs(b))

(* ---- vectors ---------------------------------------------------------- *)
Sub(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Add(p, q) == <<p[1] + q[1], p[2] + q[2]>>
Neg(u) == <<-u[1], -u[2]>>
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Sq(u) == Dot(u, u)
(* twice the signed area of pqr; its sign is the turn p -> q -> r *)
Area2(p, q, r) == Cross(Sub(q, p), Sub(r, p))
Orient(p, q, r) == Sgn(Area2(p, q, r))

(* lexicographic order, smaller x first and then smaller y *)
LexLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])

LexMin(p, q) == IF LexLess(p, q) THEN p ELSE q
LexMax(p, q) == IF LexLess(p, q) THEN q ELSE p

(* ---- rationals -------------------------------------------------------- *)
Rat(n, d) ==
  LET g == Gcd(n, d)
      s == IF d < 0 THEN -1 ELSE 1
  IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
RatPt(nx, ny, d) ==
  LET g == Gcd(Gcd(nx, ny), d)
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<(s * nx) \div g, (s * ny) \div g, (s * d) \div g>>
IntPt(p) == <<p[1], p[2], 1>>

(* ---- line segments <<p, q>> ------------------------------------------- *)
(* integer point c on the closed segment ab *)
OnSeg(a, b, c) ==
  /\ Area2(a, b, c) = 0
  /\ Min2(a[1], b[1]) <= c[1] /\ c[1] <= Max2(a[1], b[1])
  /\ Min2(a[2], b[2]) <= c[2] /\ c[2] <= Max2(a[2], b[2])
(* rational point r on the closed segment ab *)
RatOnSeg(a, b, r) ==
  LET d == r[3] IN
  /\ (b[1] - a[1]) * (r[2] - d * a[2]) = (b[2] - a[2]) * (r[1] - d * a[1])
  /\ d * Min2(a[1], b[1]) <= r[1] /\ r[1] <= d * Max2(a[1], b[1])
  /\ d * Min2(a[2], b[2]) <= r[2] /\ r[2] <= d * Max2(a[2], b[2])

(* The two closed segments have infinitely many points in common. *)
Overlap(a, b, c, d) ==
  /\ a # b /\ c # d
  /\ Area2(a, b, c) = 0 /\ Area2(a, b, d) = 0
  /\ LexLess(LexMax(LexMin(a, b), LexMin(c, d)), LexMin(LexMax(a, b), LexMax(c, d)))

(* The finite set that represents the intersection of ab and cd: the       *)
(* single common point, or the end points of the common part (when it is   *)
(* a segment), or nothing.                                                 *)
SegSeg(a, b, c, d) ==
  LET r == Sub(b, a)  s == Sub(d, c)  w == Sub(c, a)
      den == Cross(r, s)
      t == Cross(w, s)         (* t/den along ab *)
      u == Cross(w, r)         (* u/den along cd *)
  IN IF den # 0
     THEN IF Sgn(t) * Sgn(den) >= 0 /\ Abs(t) <= Abs(den)
             /\ Sgn(u) * Sgn(den) >= 0 /\ Abs(u) <= Abs(den)
          THEN {RatPt(a[1] * den + t * r[1], a[2] * den + t * r[2], den)}
          ELSE {}
     ELSE {IntPt(p) : p \in {q \in {a, b} : OnSeg(c, d, q)}
                         \cup {q \in {c, d} : OnSeg(a, b, q)}}

(* ---- surds ------------------------------------------------------------ *)
(* sign of a + b*sqrt(d), d >= 0; the comparison of a^2 with b^2 d is done  *)
(* on the integer part first so that it stays within 32 bits                *)
SignSurd(a, b, d) ==
  IF b = 0 \/ d = 0 THEN Sgn(a)
  ELSE IF a = 0 THEN Sgn(b)
  ELSE IF Sgn(a) = Sgn(b) THEN Sgn(a)
  ELSE LET g == Gcd(a, b)
           x == Abs(a) \div g
           y == Abs(b) \div g
           k == x \div y
           r == x % y
       IN IF k * k > d THEN Sgn(a)
          ELSE IF (k + 1) * (k + 1) <= d THEN Sgn(b)
          ELSE LET lhs == 2 * k * r * y + r * r
                   rhs == (d - k * k) * y * y
               IN IF lhs > rhs THEN Sgn(a) ELSE IF lhs < rhs THEN Sgn(b) ELSE 0

IntSurdPt(p) == <<p[1], 0, p[2], 0, 0, 1>>

(* ---- circles: centre c, squared radius k > 0 -------------------------- *)
OnCircle(c, k, p) == Sq(Sub(p, c)) = k

(* common points of the closed segment pq (p # q) and the circle *)
SegCirc(p, q, c, k) ==
  LET P == Sub(p, c)
      v == Sub(q, p)
      A == Sq(v)
      B == Dot(P, v)
      D == B * B - A * (Sq(P) - k)
      x0 == p[1] * A - B * v[1]
      y0 == p[2] * A - B * v[2]
      (* parameter (-B + e*sqrt(D))/A lies in 0..1 *)
      In(e) == SignSurd(-B, e, D) >= 0 /\ SignSurd(A + B, -e, D) >= 0
      Pt(e) == <<x0, e * v[1], y0, e * v[2], D, A>>
  IN IF p = q THEN IF Sq(P) = k THEN {<<p[1], 0, p[2], 0, 0, 1>>} ELSE {}
     ELSE IF D < 0 THEN {}
     ELSE IF D = 0 THEN IF In(1) THEN {<<x0, 0, y0, 0, 0, A>>} ELSE {}
     ELSE {Pt(e) : e \in {f \in {-1, 1} : In(f)}}

SameCircle(c1, k1, c2, k2) == c1 = c2 /\ k1 = k2

(* common points of two different circles *)
CircCirc(c1, k1, c2, k2) ==
  LET v == Sub(c2, c1)
      D == Sq(v)
      m == k1 - k2 + D
      disc == 4 * k1 * D - m * m
      x0 == 2 * D * c1[1] + m * v[1]
      y0 == 2 * D * c1[2] + m * v[2]
      Pt(e) == <<x0, -e * v[2], y0, e * v[1], disc, 2 * D>>
  IN IF D = 0 \/ disc < 0 THEN {}
     ELSE IF disc = 0 THEN {<<x0, 0, y0, 0, 0, 2 * D>>}
     ELSE {Pt(e) : e \in {-1, 1}}

(* ---- arcs: the part of a circle seen from its centre in the directions  *)
(* from u counterclockwise to w; the whole circle when u and w agree       *)
SameDir(u, w) == Cross(u, w) = 0 /\ Dot(u, w) > 0
(* direction v = (v[1] + v[2]*sqrt(v[5]), v[3] + v[4]*sqrt(v[5])) up to a   *)
(* positive factor                                                         *)
CrossDirSurd(u, v) == SignSurd(u[1] * v[3] - u[2] * v[1], u[1] * v[4] - u[2] * v[2], v[5])
DotDirSurd(u, v) == SignSurd(u[1] * v[1] + u[2] * v[3], u[1] * v[2] + u[2] * v[4], v[5])
InSector(u, w, v) ==
  LET cu == CrossDirSurd(u, v)
      cw == -CrossDirSurd(w, v)
      uw == Sgn(Cross(u, w))
  IN \/ SameDir(u, w)
     \/ cu = 0 /\ DotDirSurd(u, v) > 0
     \/ cw = 0 /\ DotDirSurd(w, v) > 0
     \/ IF uw > 0 THEN cu > 0 /\ cw > 0
        ELSE IF uw = 0 THEN cu > 0
        ELSE ~(cu < 0 /\ cw < 0)
IntDir(v) == <<v[1], 0, v[2], 0, 0, 1>>
(* surd point z as seen from c, scaled by z[6] *)
DirFrom(c, z) == <<z[1] - z[6] * c[1], z[2], z[3] - z[6] * c[2], z[4], z[5], 1>>
OnArcCircle(c, u, w, z) == InSector(u, w, DirFrom(c, z))

SegArc(p, q, c, k, u, w) == {z \in SegCirc(p, q, c, k) : OnArcCircle(c, u, w, z)}
CircArc(c1, k1, c2, k2, u, w) == {z \in CircCirc(c1, k1, c2, k2) : OnArcCircle(c2, u, w, z)}
ArcArc(c1, k1, u1, w1, c2, k2, u2, w2) ==
  {z \in CircCirc(c1, k1, c2, k2) : OnArcCircle(c1, u1, w1, z) /\ OnArcCircle(c2, u2, w2, z)}
(* Two arcs of one circle are represented by the ends of one that lie on    *)
(* the other, given as directions.                                         *)
ArcArcEnds(u1, w1, u2, w2) ==
  {v \in {u1, w1} : InSector(u2, w2, IntDir(v))} \cup {v \in {u2, w2} : InSector(u1, w1, IntDir(v))}
=============================================================================
