----------------------------- MODULE CaseSegSeg -----------------------------
(* Intersection of two closed line segments: every pair on a small grid, or *)
(* the pairs listed in a file.  in = <<a, b, c, d>>.                         *)
EXTENDS Geom, CaseIO
CONSTANTS N, M

Pts == (0..N) \X (0..N)
InitExh == in \in {t \in Pts \X Pts \X Pts \X Pts : Keep(t, M)} /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Result(t) == <<SegSeg(t[1], t[2], t[3], t[4]), Overlap(t[1], t[2], t[3], t[4])>>
Next == Call(Result(in))

(* every listed point lies on both segments *)
Sound == Done => \A z \in out[1] : RatOnSeg(in[1], in[2], z) /\ RatOnSeg(in[3], in[4], z)
(* no common grid point is left out unless the segments overlap, and then  *)
(* it lies between the two listed points                                   *)
Complete == Done => \A p \in Pts :
  OnSeg(in[1], in[2], p) /\ OnSeg(in[3], in[4], p) =>
     \/ IntPt(p) \in out[1]
     \/ out[2] /\ \E a, b \in out[1] : RatOnSeg(<<a[1], a[2]>>, <<b[1], b[2]>>, IntPt(p))
Shape == Done => IF out[2] THEN Cardinality(out[1]) = 2 ELSE Cardinality(out[1]) <= 1
(* the order of the segments and the direction of each do not matter *)
Symmetric == Done => /\ Result(<<in[3], in[4], in[1], in[2]>>) = out
                     /\ Result(<<in[2], in[1], in[3], in[4]>>) = out
(* the sign conditions of the classical straddle test agree *)
Straddle == Done =>
  ((out[1] # {}) =
     \/ \E p \in {in[1], in[2]} : OnSeg(in[3], in[4], p)
     \/ \E p \in {in[3], in[4]} : OnSeg(in[1], in[2], p)
     \/ /\ Orient(in[1], in[2], in[3]) * Orient(in[1], in[2], in[4]) < 0
        /\ Orient(in[3], in[4], in[1]) * Orient(in[3], in[4], in[2]) < 0)
=============================================================================
