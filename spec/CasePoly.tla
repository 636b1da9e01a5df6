------------------------------ MODULE CasePoly ------------------------------
(* in = <<v1, ..., vn>>, out = <<simple, twice the area, convex, locations>>.   *)
(* Locations (of a simple polygon, when LOC) are listed for all points with   *)
(* coordinates in halves from half below the bounding box to half above,      *)
(* column by column: 0 outside, 1 inside, 2 on.                               *)
EXTENDS Poly, CaseIO
CONSTANTS W, H, LEN, LOC, M

Pts == (0..W) \X (0..H)
After(p) == {q \in Pts : ~LexLess(q, p)}
InitExh ==
  /\ \E a \in Pts : \E b \in After(a), c \in After(a) :
       \/ LEN = 3 /\ in = <<a, b, c>>
       \/ LEN > 3 /\ \E d \in After(a) :
            \/ LEN = 4 /\ in = <<a, b, c, d>>
            \/ LEN > 4 /\ \E e \in After(a) :
                 \/ LEN = 5 /\ in = <<a, b, c, d, e>>
                 \/ LEN > 5 /\ \E f \in After(a) :
                      \/ LEN = 6 /\ in = <<a, b, c, d, e, f>>
                      \/ LEN > 6 /\ \E g \in After(a) : in = <<a, b, c, d, e, f, g>>
  /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending
(* fewer than three vertices *)
InitFew == in \in {<<>>} \cup {<<a>> : a \in Pts} \cup (Pts \X Pts) /\ out = Pending
(* only the simple ones, only the others *)
InitBroken == InitExh /\ ~Simple(in)
InitFileBroken == InitFile /\ ~Simple(in)
InitSimple == InitExh /\ Simple(in)
InitFileSimple == InitFile /\ Simple(in)

Columns(P) == (2 * MinOf(Coord(P, 1)) - 1)..(2 * MaxOf(Coord(P, 1)) + 1)
Rows(P) == (2 * MinOf(Coord(P, 2)) - 1)..(2 * MaxOf(Coord(P, 2)) + 1)
Locations(P) ==
  LET x0 == 2 * MinOf(Coord(P, 1)) - 1
      y0 == 2 * MinOf(Coord(P, 2)) - 1
      h == 2 * MaxOf(Coord(P, 2)) + 2 - y0
      w == 2 * MaxOf(Coord(P, 1)) + 2 - x0
      D == Scale(P, 2)
  IN [i \in 1..(w * h) |-> Locate(D, <<x0 + ((i - 1) \div h), y0 + ((i - 1) % h)>>)]
Result(P) == LET s == Len(P) > 2 /\ Simple(P) IN
  <<s, PolyArea2(P), IF s THEN Convex(P) ELSE FALSE, IF s /\ LOC THEN Locations(P) ELSE <<>>>>
Next == Call(Result(in))

Ok == Done /\ out[1]
Grid(P) == {p \in (MinOf(Coord(P, 1))..MaxOf(Coord(P, 1))) \X (MinOf(Coord(P, 2))..MaxOf(Coord(P, 2))) : TRUE}
(* winding number of a simple polygon is 0 or its orientation, and agrees    *)
(* with the parity of upward crossings                                      *)
WindingSound == Ok => \A q \in Grid(in) : ~OnBoundary(in, q) =>
  /\ Winding(in, q) \in {0, Sgn(PolyArea2(in))}
  /\ (Winding(in, q) # 0) = (UpParity(in, q) = 1)
(* Pick: twice the area is 2 I + B - 2 *)
RECURSIVE BoundarySum(_, _)
BoundarySum(P, i) == IF i > Len(P) THEN 0
  ELSE Gcd(Nx(P, i)[1] - P[i][1], Nx(P, i)[2] - P[i][2]) + BoundarySum(P, i + 1)
Pick == Ok => Abs(out[2]) = 2 * Cardinality({q \in Grid(in) : Locate(in, q) = 1}) + BoundarySum(in, 1) - 2
(* none of it depends on the starting vertex; reversing negates the area *)
Rotated(P) == IF P = <<>> THEN P ELSE Append(SubSeq(P, 2, Len(P)), P[1])
Reversed(P) == [i \in 1..Len(P) |-> P[Len(P) + 1 - i]]
Invariance == Done /\ Len(in) > 2 =>
  /\ Simple(Rotated(in)) = out[1] /\ Simple(Reversed(in)) = out[1]
  /\ PolyArea2(Rotated(in)) = out[2] /\ PolyArea2(Reversed(in)) = -out[2]
  /\ out[1] => Convex(Rotated(in)) = out[3] /\ Convex(Reversed(in)) = out[3]
(* a convex polygon lies on one side of each edge *)
ConvexSides == Ok => (out[3] = \A i \in 1..Len(in) : \A j \in 1..Len(in) :
  Orient(in[i], Nx(in, i), in[j]) * Sgn(PolyArea2(in)) >= 0)
=============================================================================
