------------------------------ MODULE CaseLines -----------------------------
(* Intersections that involve lines and rays.  in = <<<<kind>>, a, b, c, d>>  *)
(*   kind 1: line ab with line cd                                            *)
(*   kind 2: line ab with the ray from c through d                            *)
(*   kind 3: line segment ab with the ray from c through d                    *)
(* out = <<set of reported points>>                                           *)
EXTENDS Geom, CaseIO
CONSTANTS KIND, N, M

Pts == (0..N) \X (0..N)
InitExh ==
  /\ \E a \in Pts, c \in Pts : \E b \in IF KIND = 3 THEN Pts ELSE Pts \ {a}, d \in Pts \ {c} :
        in = <<<<KIND>>, a, b, c, d>> /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

kind == in[1][1]
(* membership, stated on a point with rational coordinates *)
RatOnLine(a, b, z) ==
  (b[1] - a[1]) * (z[2] - z[3] * a[2]) = (b[2] - a[2]) * (z[1] - z[3] * a[1])
RatAhead(o, t, z) ==
  (t[1] - o[1]) * (z[1] - z[3] * o[1]) + (t[2] - o[2]) * (z[2] - z[3] * o[2]) >= 0
RatOnRay(o, t, z) == RatOnLine(o, t, z) /\ RatAhead(o, t, z)

Crossing(a, b, c, d) ==
  LET r == Sub(b, a)  s == Sub(d, c)
      den == Cross(r, s)
      t == Cross(Sub(c, a), s)
  IN IF den = 0 THEN {} ELSE {RatPt(a[1] * den + t * r[1], a[2] * den + t * r[2], den)}

Result(k, a, b, c, d) ==
  CASE k = 1 -> Crossing(a, b, c, d)
    [] k = 2 -> {z \in Crossing(a, b, c, d) : RatAhead(c, d, z)}
    [] k = 3 -> IF Area2(c, d, a) = 0 /\ Area2(c, d, b) = 0
                THEN {IntPt(p) : p \in {q \in {a, b} : RatOnRay(c, d, IntPt(q))}}
                ELSE {z \in Crossing(a, b, c, d) : RatAhead(c, d, z) /\ RatOnSeg(a, b, z)}
Next == Call(<<Result(in[1][1], in[2], in[3], in[4], in[5])>>)

InFirst(z) == IF kind = 3 THEN RatOnSeg(in[2], in[3], z) ELSE RatOnLine(in[2], in[3], z)
InSecond(z) == IF kind = 1 THEN RatOnLine(in[4], in[5], z) ELSE RatOnRay(in[4], in[5], z)
Sound == Done => \A z \in out[1] : InFirst(z) /\ InSecond(z)
Parallel == Cross(Sub(in[3], in[2]), Sub(in[5], in[4])) = 0
Complete == Done /\ ~Parallel => \A p \in Pts :
  InFirst(IntPt(p)) /\ InSecond(IntPt(p)) => IntPt(p) \in out[1]
Shape == Done => IF Parallel /\ kind # 3 THEN out[1] = {} ELSE Cardinality(out[1]) <= IF Parallel THEN 2 ELSE 1
(* which of its points define a line, and the direction of a segment, do not matter *)
Symmetric == Done =>
  /\ Result(kind, in[3], in[2], in[4], in[5]) = out[1]
  /\ kind = 1 => Result(1, in[4], in[5], in[2], in[3]) = out[1]
  /\ kind = 1 => Result(1, in[2], in[3], in[5], in[4]) = out[1]
(* a line is the union of the two opposite rays of any of its points *)
TwoRays == Done /\ kind = 1 =>
  LET back == Sub(in[4], Sub(in[5], in[4])) IN
  Result(2, in[2], in[3], in[4], in[5]) \cup Result(2, in[2], in[3], in[4], back) = out[1]
=============================================================================
