------------------------------- MODULE EarClip ------------------------------
(* Ear clipping as a machine: any ear, or any vertex in the middle of a        *)
(* straight side, may be clipped next.  It never gets stuck, what remains is   *)
(* always a simple polygon of the remaining area, and it ends in a             *)
(* triangulation whatever the choices (so the order of the code's choices      *)
(* cannot matter).                                                             *)
EXTENDS Triangulate, TLC, Json, IOUtils
CONSTANTS W, H, LEN
VARIABLES poly,   \* the polygon
          ring,   \* indices of the vertices that are left
          tris    \* the triangles clipped so far

vars == <<poly, ring, tris>>
Pts == (0..W) \X (0..H)
Start(P) == /\ poly = P /\ ring = [i \in 1..Len(P) |-> i] /\ tris = <<>>
Init == \E P \in [1..LEN -> Pts] :
  /\ \A i \in 2..LEN : ~LexLess(P[i], P[1])
  /\ Simple(P) /\ Start(P)
InitFile == LET s == JsonDeserialize(IOEnv.CASES) IN
  \E i \in DOMAIN s : Simple(s[i]) /\ Start(s[i])

At(i) == poly[ring[((i - 1) % Len(ring)) + 1]]
Pre(i) == IF i = 1 THEN Len(ring) ELSE i - 1
Suc(i) == (i % Len(ring)) + 1
Turn(i) == Orient(At(Pre(i)), At(i), At(Suc(i))) * Sgn(PolyArea2(poly))
InTri(t, p) == LET c == Ccw(t) IN
  Orient(c[1], c[2], p) >= 0 /\ Orient(c[2], c[3], p) >= 0 /\ Orient(c[3], c[1], p) >= 0
Ear(i) == /\ Turn(i) > 0
          /\ \A j \in 1..Len(ring) : j \notin {Pre(i), i, Suc(i)} => ~InTri(<<At(Pre(i)), At(i), At(Suc(i))>>, At(j))
(* only reflex vertices can be in the way, which is what the code relies on *)
EarByReflex(i) == /\ Turn(i) > 0
          /\ \A j \in 1..Len(ring) : j \notin {Pre(i), i, Suc(i)} /\ Turn(j) <= 0 => ~InTri(<<At(Pre(i)), At(i), At(Suc(i))>>, At(j))
Straight(i) == Turn(i) = 0
Without(i) == SubSeq(ring, 1, i - 1) \o SubSeq(ring, i + 1, Len(ring))
Clip(i) ==
  /\ Len(ring) > 3
  /\ Ear(i) \/ Straight(i)
  /\ tris' = Append(tris, <<ring[Pre(i)], ring[i], ring[Suc(i)]>>)
  /\ ring' = Without(i)
  /\ UNCHANGED poly
Last == /\ Len(ring) = 3
        /\ tris' = Append(tris, ring)
        /\ ring' = <<>>
        /\ UNCHANGED poly
Next == Last \/ \E i \in 1..Len(ring) : Clip(i)
Spec == Init /\ [][Next]_vars

Left == [i \in 1..Len(ring) |-> poly[ring[i]]]
RECURSIVE SumA(_, _)
SumA(T, i) == IF i > Len(T) THEN 0 ELSE Area2(poly[T[i][1]], poly[T[i][2]], poly[T[i][3]]) + SumA(T, i + 1)
Remains == ring # <<>> => Simple(Left) /\ PolyArea2(Left) * PolyArea2(poly) > 0
Area == SumA(tris, 1) + (IF ring = <<>> THEN 0 ELSE PolyArea2(Left)) = PolyArea2(poly)
(* two ears, counting the straight vertices: never stuck *)
TwoEars == Len(ring) > 3 => Cardinality({i \in 1..Len(ring) : Ear(i) \/ Straight(i)}) >= 2
(* without the straight vertices, as the code does it: there is an ear anyway *)
ReflexSuffice == Len(ring) > 3 => \A i \in 1..Len(ring) : Ear(i) = EarByReflex(i)
AtEnd == ring = <<>> => Wrong(poly, tris) = "ok"
=============================================================================
