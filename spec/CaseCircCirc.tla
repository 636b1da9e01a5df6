---------------------------- MODULE CaseCircCirc ----------------------------
(* Intersection of two circles, the first around the origin.                *)
(* in = <<<<k1>>, c2, <<k2>>>>, squared radii.                                *)
EXTENDS Geom, CaseIO
CONSTANTS N, K, M

Pts == (-N..N) \X (-N..N)
InitExh == /\ in \in {t \in {<<k>> : k \in 1..K} \X Pts \X {<<k>> : k \in 1..K} : Keep(t, M)}
           /\ out = Pending
InitFile == in \in FileCases /\ out = Pending
O == <<0, 0>>
k1 == in[1][1]
c2 == in[2]
k2 == in[3][1]
Next == Call(<<CircCirc(O, k1, c2, k2), SameCircle(O, k1, c2, k2)>>)

OnC(z, c, kk) ==
  LET X == z[1] - z[6] * c[1]
      Y == z[3] - z[6] * c[2]
      d == z[5]
  IN /\ X * X + z[2] * z[2] * d + Y * Y + z[4] * z[4] * d = kk * z[6] * z[6]
     /\ (d = 0 \/ X * z[2] + Y * z[4] = 0)
Sound == Done => \A z \in out[1] : OnC(z, O, k1) /\ OnC(z, c2, k2)
Complete == Done => \A p \in Pts :
  OnCircle(O, k1, p) /\ OnCircle(c2, k2, p) =>
     \/ out[2]
     \/ \E z \in out[1] : SignSurd(z[1] - z[6] * p[1], z[2], z[5]) = 0 /\ SignSurd(z[3] - z[6] * p[2], z[4], z[5]) = 0
(* |r1 - r2| <= d <= r1 + r2, stated on squares *)
D == Sq(c2)
Count == Done /\ D > 0 =>
  LET e == D - k1 - k2 IN
  Cardinality(out[1]) = (IF e * e > 4 * k1 * k2 THEN 0 ELSE IF e * e = 4 * k1 * k2 THEN 1 ELSE 2)
Concentric == Done /\ D = 0 => out[1] = {}
=============================================================================
