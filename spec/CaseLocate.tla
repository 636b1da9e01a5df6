----------------------------- MODULE CaseLocate -----------------------------
(* Where a point lies.  in = <<<<kind>>, ..., p>>                             *)
(*   kind 1: line ab           -> "on" "off"                                 *)
(*   kind 2: ray from a via b  -> "on" "left" "right" "collinear"            *)
(*   kind 3: segment ab        -> "on" "left" "right" "collinear", "off" for *)
(*                                a point that misses a zero-length segment  *)
(*   kind 4: circle a, <<k>>    -> "on" "inside" "outside"                    *)
(*   kind 5: arc <<k>>, u, w around the origin -> "on" "off"                  *)
(*   kind 6: triangle abc, even a degenerate one -> "on" "inside" "outside"                    *)
EXTENDS Geom, CaseIO
CONSTANTS KIND, N, K, M

Pts == (0..N) \X (0..N)
Disc == (-N..N) \X (-N..N)
DirSet == {<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>,
           <<2, 1>>, <<-1, 2>>, <<-2, -1>>, <<1, -2>>, <<3, 4>>, <<-4, 3>>, <<-3, -4>>, <<4, -3>>,
           <<1, 2>>, <<-2, 1>>, <<-1, -2>>, <<2, -1>>}
InitExh ==
  /\ \/ KIND \in {1, 2} /\ \E a \in Pts : \E b \in Pts \ {a} : \E p \in Pts : in = <<<<KIND>>, a, b, p>>
     \/ KIND = 3 /\ \E a \in Pts, b \in Pts, p \in Pts : in = <<<<KIND>>, a, b, p>>
     \/ KIND = 4 /\ \E k \in 1..K, p \in Disc : in = <<<<KIND>>, <<0, 0>>, <<k>>, p>>
     \/ KIND = 5 /\ \E u \in DirSet, w \in DirSet, p \in Disc \ {<<0, 0>>} :
          \E k \in {Sq(p), Sq(p) + 1} : in = <<<<KIND>>, <<k>>, u, w, p>>
     \/ KIND = 6 /\ \E a \in Pts, b \in Pts, c \in Pts, p \in Pts :
          in = <<<<KIND>>, a, b, c, p>>
  /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Side(a, b, p) == CASE Orient(a, b, p) > 0 -> "left" [] Orient(a, b, p) < 0 -> "right" [] OTHER -> "collinear"
Line(a, b, p) == IF Orient(a, b, p) = 0 THEN "on" ELSE "off"
Ray(a, b, p) == IF Orient(a, b, p) = 0 /\ Dot(Sub(b, a), Sub(p, a)) >= 0 THEN "on" ELSE Side(a, b, p)
Seg(a, b, p) == IF OnSeg(a, b, p) THEN "on" ELSE IF a = b THEN "off" ELSE Side(a, b, p)
Circle(c, k, p) == CASE Sq(Sub(p, c)) = k -> "on" [] Sq(Sub(p, c)) < k -> "inside" [] OTHER -> "outside"
Arc(k, u, w, p) == IF Sq(p) = k /\ InSector(u, w, IntDir(p)) THEN "on" ELSE "off"
Tri(a, b, c, p) ==
  IF OnSeg(a, b, p) \/ OnSeg(b, c, p) \/ OnSeg(c, a, p) THEN "on"
  ELSE IF Orient(a, b, p) # 0 /\ Orient(a, b, p) = Orient(b, c, p) /\ Orient(b, c, p) = Orient(c, a, p) THEN "inside" ELSE "outside"
Result(t) ==
  CASE t[1][1] = 1 -> Line(t[2], t[3], t[4])
    [] t[1][1] = 2 -> Ray(t[2], t[3], t[4])
    [] t[1][1] = 3 -> Seg(t[2], t[3], t[4])
    [] t[1][1] = 4 -> Circle(t[2], t[3][1], t[4])
    [] t[1][1] = 5 -> Arc(t[2][1], t[3], t[4], t[5])
    [] t[1][1] = 6 -> Tri(t[2], t[3], t[4], t[5])
Next == Call(<<Result(in)>>)

k == in[1][1]
Opp(s) == CASE s = "left" -> "right" [] s = "right" -> "left" [] OTHER -> s
(* Reversing a segment exchanges left and right and nothing else. *)
Reversed == Done =>
  /\ k = 1 => Line(in[3], in[2], in[4]) = out[1]
  /\ k = 3 => Seg(in[3], in[2], in[4]) = Opp(out[1])
  /\ k = 6 => /\ Tri(in[3], in[2], in[4], in[5]) = out[1]
              /\ Tri(in[3], in[4], in[2], in[5]) = out[1]
(* A line is the union of a ray and the opposite ray; a segment is the      *)
(* intersection of the two rays between its ends.                           *)
Parts == Done =>
  /\ k = 1 => (out[1] = "on") = (Ray(in[2], in[3], in[4]) = "on" \/ Ray(in[2], Sub(in[2], Sub(in[3], in[2])), in[4]) = "on")
  /\ k = 3 /\ in[2] # in[3] =>
       (out[1] = "on") = (Ray(in[2], in[3], in[4]) = "on" /\ Ray(in[3], in[2], in[4]) = "on")
(* An arc and the arc that completes it make the circle and share only ends. *)
Complement == Done /\ k = 5 /\ Sq(in[5]) = in[2][1] =>
  LET other == Arc(in[2][1], in[4], in[3], in[5]) IN
  /\ out[1] = "on" \/ other = "on"
  /\ out[1] = "on" /\ other = "on" =>
        SameDir(in[3], in[4]) \/ SameDir(in[3], in[5]) \/ SameDir(in[4], in[5])
(* A degenerate triangle has no interior. *)
NoInterior == Done /\ k = 6 /\ Area2(in[2], in[3], in[4]) = 0 => out[1] # "inside"
(* Barycentric: p splits the triangle into three of the same total area      *)
(* exactly when it is not outside.                                          *)
Bary == Done /\ k = 6 /\ Area2(in[2], in[3], in[4]) # 0 =>
  (out[1] # "outside") =
    (Abs(Area2(in[2], in[3], in[5])) + Abs(Area2(in[3], in[4], in[5])) + Abs(Area2(in[4], in[2], in[5]))
       = Abs(Area2(in[2], in[3], in[4])))
=============================================================================
