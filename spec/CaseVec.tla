------------------------------- MODULE CaseVec ------------------------------
(* Vectors, turns, point order and equality, equality of lines.             *)
(*  kind 1: u, v          -> <<dot, cross, |u|^2, |v|^2>>                      *)
(*  kind 2: p, q, r       -> turn "left" "right" "collinear"                  *)
(*  kind 3: p, q, <<dx, dy>> in tenths of the tolerance, added to q           *)
(*                        -> <<equal, order of p against q: -1 0 1>>           *)
(*  kind 4: a, b, c, d    -> lines ab and cd are equal                        *)
(*  kind 5: <<a, b, c>>, <<a, b, c>> -> the lines ax + by + c = 0 are equal      *)
EXTENDS Geom, CaseIO
CONSTANTS KIND, N, M

Vecs == (-N..N) \X (-N..N)
Small == {0, 1, 3}
Tiny == {-60, -3, 0, 1, 2, 60}
Coef == {t \in (-N..N) \X (-N..N) \X (-N..N) : t[1] # 0 \/ t[2] # 0}
InitExh ==
  /\ \/ KIND = 1 /\ \E u \in Vecs, v \in Vecs : in = <<<<KIND>>, u, v>>
     \/ KIND = 2 /\ \E u \in Vecs, v \in Vecs, w \in Vecs : in = <<<<KIND>>, u, v, w>>
     \/ KIND = 3 /\ \E u \in Vecs, v \in Vecs : \E d \in Tiny \X Tiny : in = <<<<KIND>>, u, v, d>>
     \/ KIND = 4 /\ \E a \in Vecs, c \in Vecs : \E b \in Vecs \ {a}, d \in Vecs \ {c} : in = <<<<KIND>>, a, b, c, d>>
     \/ KIND = 5 /\ \E l \in Coef, m \in Coef : in = <<<<KIND>>, l, m>>
  /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Turn(p, q, r) == CASE Orient(p, q, r) > 0 -> "left" [] Orient(p, q, r) < 0 -> "right" [] OTHER -> "collinear"
(* Coordinate comparison with tolerance 10 (in its tenths): the catalogue    *)
(* Tiny stays well clear of the tolerance itself.                            *)
CmpCoord(x, y, d) == IF x # y THEN Sgn(x - y) ELSE IF Abs(d) < 10 THEN 0 ELSE Sgn(-d)
Same(p, q, d) == CmpCoord(p[1], q[1], d[1]) = 0 /\ CmpCoord(p[2], q[2], d[2]) = 0
(* smaller x is the greater point, then smaller y *)
Order(p, q, d) ==
  LET x == CmpCoord(p[1], q[1], d[1])
      y == CmpCoord(p[2], q[2], d[2])
  IN IF x # 0 THEN -x ELSE -y
SameLine(a, b, c, d) == Area2(a, b, c) = 0 /\ Area2(a, b, d) = 0
SameCoef(l, m) ==
  /\ l[1] * m[2] = l[2] * m[1]
  /\ l[1] * m[3] = l[3] * m[1]
  /\ l[2] * m[3] = l[3] * m[2]
Result(t) ==
  CASE t[1][1] = 1 -> <<Dot(t[2], t[3]), Cross(t[2], t[3]), Sq(t[2]), Sq(t[3])>>
    [] t[1][1] = 2 -> <<Turn(t[2], t[3], t[4])>>
    [] t[1][1] = 3 -> <<Same(t[2], t[3], t[4]), Order(t[2], t[3], t[4])>>
    [] t[1][1] = 4 -> <<SameLine(t[2], t[3], t[4], t[5])>>
    [] t[1][1] = 5 -> <<SameCoef(t[2], t[3])>>
Next == Call(Result(in))

k == in[1][1]
Opp(s) == CASE s = "left" -> "right" [] s = "right" -> "left" [] OTHER -> s
Lagrange == Done /\ k = 1 => out[1] * out[1] + out[2] * out[2] = out[3] * out[4]
Rotation == Done /\ k = 2 =>
  /\ Turn(in[3], in[4], in[2]) = out[1]
  /\ Turn(in[3], in[2], in[4]) = Opp(out[1])
  /\ (out[1] = "collinear") = (Sgn(Cross(Sub(in[3], in[2]), Sub(in[4], in[3]))) = 0)
Total == Done /\ k = 3 =>
  /\ out[1] = (out[2] = 0)
  /\ in[4] = <<0, 0>> => out[2] = -Order(in[3], in[2], <<0, 0>>)
(* equality of lines is exactly: every grid point on one is on the other *)
LineSet == Done /\ k = 4 =>
  (out[1] = \A p \in {in[2], in[3], in[4], in[5]} :
               (Area2(in[2], in[3], p) = 0) = (Area2(in[4], in[5], p) = 0))
OnCoef(l, p) == l[1] * p[1] + l[2] * p[2] + l[3] = 0
CoefSet == Done /\ k = 5 =>
  (out[1] => \A p \in Vecs : OnCoef(in[2], p) = OnCoef(in[3], p))
=============================================================================
