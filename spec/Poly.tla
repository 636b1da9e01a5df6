-------------------------------- MODULE Poly --------------------------------
(* Polygons as vertex sequences <<v1, ..., vn>>, n >= 3, integer vertices.     *)
EXTENDS Geom

Nx(P, i) == P[(i % Len(P)) + 1]
(* twice the signed area *)
RECURSIVE AreaSum(_, _)
AreaSum(P, i) == IF i > Len(P) THEN 0 ELSE Cross(P[i], Nx(P, i)) + AreaSum(P, i + 1)
PolyArea2(P) == AreaSum(P, 1)

(* edges ab and bc share exactly b *)
CornerOnly(a, b, c) == a # b /\ b # c /\ ~OnSeg(a, b, c) /\ ~OnSeg(b, c, a)
Simple(P) ==
  LET n == Len(P) IN
  /\ \A i \in 1..n : CornerOnly(P[i], Nx(P, i), Nx(P, (i % n) + 1))
  /\ \A i \in 1..n : \A j \in (i + 1)..n :
        (j = i + 1 \/ (i = 1 /\ j = n)) \/ SegSeg(P[i], Nx(P, i), P[j], Nx(P, j)) = {}
TurnAt(P, i) == Orient(P[i], Nx(P, i), Nx(P, (i % Len(P)) + 1))
(* of a simple polygon: no two vertices turn opposite ways *)
Convex(P) == LET T == {TurnAt(P, i) : i \in 1..Len(P)} IN ~({1, -1} \subseteq T)

OnBoundary(P, q) == \E i \in 1..Len(P) : OnSeg(P[i], Nx(P, i), q)
(* signed crossings of the leftward ray from q: the winding number *)
Crossing(a, b, q) ==
  IF a[2] <= q[2] /\ q[2] < b[2] /\ Orient(a, b, q) > 0 THEN 1
  ELSE IF b[2] <= q[2] /\ q[2] < a[2] /\ Orient(a, b, q) < 0 THEN -1 ELSE 0
RECURSIVE WindSum(_, _, _)
WindSum(P, q, i) == IF i > Len(P) THEN 0 ELSE Crossing(P[i], Nx(P, i), q) + WindSum(P, q, i + 1)
Winding(P, q) == WindSum(P, q, 1)
(* crossings of the upward ray, by halves of the plane: independent of it *)
UpCross(a, b, q) ==
  \/ a[1] <= q[1] /\ q[1] < b[1] /\ Orient(a, b, q) < 0
  \/ b[1] <= q[1] /\ q[1] < a[1] /\ Orient(a, b, q) > 0
UpParity(P, q) == Cardinality({i \in 1..Len(P) : UpCross(P[i], Nx(P, i), q)}) % 2
(* 0 outside, 1 inside, 2 on the boundary *)
Locate(P, q) == IF OnBoundary(P, q) THEN 2 ELSE IF Winding(P, q) # 0 THEN 1 ELSE 0
Scale(P, k) == [i \in 1..Len(P) |-> <<k * P[i][1], k * P[i][2]>>]
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Coord(P, k) == {P[i][k] : i \in 1..Len(P)}
=============================================================================
