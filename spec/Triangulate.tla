----------------------------- MODULE Triangulate ----------------------------
(* What a triangulation of a simple polygon P is: triangles T, as index        *)
(* triples (from 1) into P.                                                   *)
EXTENDS Poly

Tri(P, t) == <<P[t[1]], P[t[2]], P[t[3]]>>
A2(t) == Area2(t[1], t[2], t[3])
Flat3(t) == A2(t) = 0
(* all of the points S lie on or right of ab *)
RightOf(a, b, S) == \A p \in S : Orient(a, b, p) <= 0
Ccw(t) == IF A2(t) > 0 THEN t ELSE <<t[1], t[3], t[2]>>
Pts3(t) == {t[1], t[2], t[3]}
(* an edge line of s (counterclockwise) has all of S outside *)
Separates(s, S) == \/ RightOf(s[1], s[2], S) \/ RightOf(s[2], s[3], S) \/ RightOf(s[3], s[1], S)
DisjointTri(s, t) == Separates(Ccw(s), Pts3(t)) \/ Separates(Ccw(t), Pts3(s))
(* the segment ab does not enter the interior of t *)
Misses(a, b, t) ==
  \/ Separates(Ccw(t), {a, b})
  \/ RightOf(a, b, Pts3(t)) \/ RightOf(b, a, Pts3(t))
Within(P, t) ==
  /\ \A i \in 1..Len(P) : Misses(P[i], Nx(P, i), t)
  /\ Locate(Scale(P, 3), <<t[1][1] + t[2][1] + t[3][1], t[1][2] + t[2][2] + t[3][2]>>) = 1
RECURSIVE Total(_, _, _)
Total(P, T, i) == IF i > Len(T) THEN 0 ELSE Abs(A2(Tri(P, T[i]))) + Total(P, T, i + 1)
Corners(P, T) == \A i \in 1..Len(T) : Len(T[i]) = 3 /\ \A k \in 1..3 : T[i][k] \in 1..Len(P)
Apart(P, T) == \A i, j \in 1..Len(T) :
  i < j /\ ~Flat3(Tri(P, T[i])) /\ ~Flat3(Tri(P, T[j])) => DisjointTri(Tri(P, T[i]), Tri(P, T[j]))
Inner(P, T) == \A i \in 1..Len(T) : ~Flat3(Tri(P, T[i])) => Within(P, Tri(P, T[i]))
Wrong(P, T) ==
  IF Len(T) # Len(P) - 2 THEN "count"
  ELSE IF ~Corners(P, T) THEN "index"
  ELSE IF \E i \in 1..Len(T) : Cardinality({T[i][1], T[i][2], T[i][3]}) # 3 THEN "corner"
  ELSE IF Total(P, T, 1) # Abs(PolyArea2(P)) THEN "area"
  ELSE IF ~Inner(P, T) THEN "outside"
  ELSE IF ~Apart(P, T) THEN "overlap"
  ELSE "ok"
=============================================================================
