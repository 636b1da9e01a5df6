----------------------------- MODULE CaseSegCirc ----------------------------
(* Intersection of a line segment with a circle around the origin.          *)
(* in = <<p, q, <<k>>>>, k the squared radius.                               *)
EXTENDS Geom, CaseIO
CONSTANTS N, K, M

Pts == (-N..N) \X (-N..N)
InitExh == /\ in \in {t \in Pts \X Pts \X {<<k>> : k \in 1..K} : t[1] = t[2] \/ Keep(t, M)}
           /\ out = Pending
InitFile == in \in FileCases /\ out = Pending
O == <<0, 0>>
Next == Call(<<SegCirc(in[1], in[2], O, in[3][1])>>)

k == in[3][1]
(* (x/s)^2 + (y/s)^2 = k and the point lies on the line of the segment *)
OnBoth(z) ==
  LET d == z[5]
      ra == z[1] * z[1] + z[2] * z[2] * d + z[3] * z[3] + z[4] * z[4] * d
      rb == 2 * (z[1] * z[2] + z[3] * z[4])
      v == Sub(in[2], in[1])
      (* cross(z - p, v) = 0, rational and irrational part *)
      la == (z[1] - z[6] * in[1][1]) * v[2] - (z[3] - z[6] * in[1][2]) * v[1]
      lb == z[2] * v[2] - z[4] * v[1]
  IN ra = k * z[6] * z[6] /\ (rb = 0 \/ d = 0) /\ la = 0 /\ (lb = 0 \/ d = 0)
Sound == Done => \A z \in out[1] : OnBoth(z)
(* common grid points are found *)
Complete == Done => \A p \in Pts :
  OnSeg(in[1], in[2], p) /\ OnCircle(O, k, p) =>
     \E z \in out[1] : SignSurd(z[1] - z[6] * p[1], z[2], z[5]) = 0 /\ SignSurd(z[3] - z[6] * p[2], z[4], z[5]) = 0
(* with one end inside and one outside there is exactly one, with both      *)
(* strictly inside there is none                                           *)
Side(p) == Sgn(Sq(p) - k)
Count == Done => /\ Cardinality(out[1]) <= 2
                 /\ (Side(in[1]) * Side(in[2]) < 0 => Cardinality(out[1]) = 1)
                 /\ (Side(in[1]) < 0 /\ Side(in[2]) < 0 => out[1] = {})
                 /\ (Side(in[1]) = 0 => out[1] # {})
=============================================================================
