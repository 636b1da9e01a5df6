------------------------------ MODULE CaseProj ------------------------------
(* Orthogonal projection of p onto the line (kind 1) or segment (kind 2) ab. *)
(* in = <<<<kind>>, a, b, p>>, out = <<set with the foot, or empty>>            *)
EXTENDS Geom, CaseIO
CONSTANTS KIND, N, M

Pts == (0..N) \X (0..N)
InitExh ==
  /\ \E a \in Pts : \E b \in Pts \ {a} : \E p \in Pts : in = <<<<KIND>>, a, b, p>> /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Foot(a, b, p) ==
  LET v == Sub(b, a)
      t == Dot(Sub(p, a), v)
  IN RatPt(a[1] * Sq(v) + t * v[1], a[2] * Sq(v) + t * v[2], Sq(v))
Result(kind, a, b, p) ==
  LET t == Dot(Sub(p, a), Sub(b, a)) IN
  IF kind = 1 \/ (0 <= t /\ t <= Sq(Sub(b, a))) THEN {Foot(a, b, p)} ELSE {}
Next == Call(<<Result(in[1][1], in[2], in[3], in[4])>>)

Perp == Done => \A z \in out[1] :
  LET v == Sub(in[3], in[2]) IN
  (z[1] - z[3] * in[4][1]) * v[1] + (z[2] - z[3] * in[4][2]) * v[2] = 0
OnIt == Done => \A z \in out[1] :
  LET a == in[2]  b == in[3] IN
  /\ (b[1] - a[1]) * (z[2] - z[3] * a[2]) = (b[2] - a[2]) * (z[1] - z[3] * a[1])
  /\ in[1][1] = 2 => RatOnSeg(a, b, z)
(* no grid point of the line is nearer than the foot *)
DistRat(z, p) == (z[1] - z[3] * p[1]) * (z[1] - z[3] * p[1]) + (z[2] - z[3] * p[2]) * (z[2] - z[3] * p[2])
Nearest == Done => \A z \in out[1] : \A q \in Pts :
  Area2(in[2], in[3], q) = 0 => DistRat(z, in[4]) <= z[3] * z[3] * Sq(Sub(q, in[4]))
(* the segment has no foot exactly when the line's foot is off it *)
Clip == Done /\ in[1][1] = 2 =>
  (out[1] = {}) = ~RatOnSeg(in[2], in[3], Foot(in[2], in[3], in[4]))
Symmetric == Done => Result(in[1][1], in[3], in[2], in[4]) = out[1]
=============================================================================
