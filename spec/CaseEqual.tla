------------------------------ MODULE CaseEqual -----------------------------
(* Equality of two things of one kind: in = <<<<kind>>, x, y>>, out = <<equal>>. *)
(*  kind 1: segments <<x1, y1, x2, y2>>                                        *)
(*  kind 2: arcs <<cx, cy, radius, from, to>>, angles in 24ths of a turn       *)
(*  kind 3: triangles <<x1, y1, ..., x3, y3, reversals>>                       *)
(*  kind 4: edges <<x1, y1, x2, y2, type>>: a straight edge and an arc are    *)
(*          never equal (two arcs are not compared)                           *)
EXTENDS Integers, Sequences, FiniteSets, CaseIO
CONSTANTS KIND, N, M

Pts == (0..N) \X (0..N)
Segs == {<<p[1], p[2], q[1], q[2]>> : p \in Pts, q \in Pts}
Arcs == {<<p[1], p[2], k, s, t>> : p \in {<<0, 0>>, <<1, 0>>, <<0, 1>>}, k \in 1..2, s \in 0..23, t \in 0..23}
ArcOk(x) == (x[5] - x[4]) % 24 # 0
Triangles == {<<p[1], p[2], q[1], q[2], r[1], r[2], n>> : p \in Pts, q \in Pts, r \in Pts, n \in 0..2}
Edges == {<<s[1], s[2], s[3], s[4], t>> : s \in Segs, t \in 0..1}
Things == CASE KIND = 1 -> Segs
            [] KIND = 2 -> {x \in Arcs : ArcOk(x)}
            [] KIND = 3 -> Triangles
            [] KIND = 4 -> Edges

(* things that differ from x in one place at most *)
Values(i) == CASE KIND = 2 /\ i > 3 -> 0..23
               [] KIND = 2 /\ i = 3 -> 1..2
               [] OTHER -> 0..(IF N > 2 THEN N ELSE 2)
Near(x) == UNION {{[x EXCEPT ![i] = v] : v \in Values(i)} : i \in 1..Len(x)}
Ok(x, y) == (KIND = 2 => ArcOk(y)) /\ (KIND = 4 => y[5] < 2 /\ x[5] + y[5] < 2)
InitExh == /\ \E x, y \in Things : Ok(x, y) /\ in = <<<<KIND>>, x, y>> /\ Keep(in, M)
           /\ out = Pending
InitNear == /\ \E x \in Things : \E y \in Near(x) : Ok(x, y) /\ in = <<<<KIND>>, x, y>> /\ Keep(in, M)
            /\ out = Pending
(* arcs in quarters on circles that pass through one another's centres: many    *)
(* share both ends and the radius                                            *)
Quarters == {x \in {<<p[1], p[2], k, s, t>> : p \in {0, 2} \X {0, 2}, k \in 1..2, s \in {0, 6, 12, 18}, t \in {0, 6, 12, 18}} : ArcOk(x)}
InitEnds == /\ \E x, y \in Quarters : in = <<<<2>>, x, y>> /\ Keep(in, M)
            /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

(* orientation of a triangle after n reversals; a degenerate one starts clockwise *)
Left(x) == ((x[3] - x[1]) * (x[6] - x[2]) - (x[4] - x[2]) * (x[5] - x[1]) > 0) = (x[7] % 2 = 0)
Equal(kind, x, y) ==
  CASE kind = 1 -> x = y
    [] kind = 2 -> x = y
    [] kind = 3 -> (\A i \in 1..6 : x[i] = y[i]) /\ Left(x) = Left(y)
    [] kind = 4 -> x = y
Next == Call(<<Equal(in[1][1], in[2], in[3])>>)

Reflexive == Done => Equal(in[1][1], in[2], in[2]) /\ Equal(in[1][1], in[3], in[3])
Symmetric == Done => Equal(in[1][1], in[3], in[2]) = out[1]
(* what a user can observe of equal things is the same, and of others not *)
Reverse(x) == <<x[3], x[4], x[1], x[2]>>
Directed == Done /\ in[1][1] = 1 /\ in[3] = Reverse(in[2]) =>
  (out[1] = (in[2][1] = in[2][3] /\ in[2][2] = in[2][4]))
Units(x) == {(x[4] + i) % 24 : i \in 0..(((x[5] - x[4]) % 24) - 1)}
SamePart == Done /\ in[1][1] = 2 => LET x == in[2]  y == in[3] IN
  /\ out[1] => Units(x) = Units(y)
  /\ ~out[1] /\ x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] => Units(x) # Units(y)
Twice == Done /\ in[1][1] = 3 => Equal(3, [in[2] EXCEPT ![7] = @ + 2], in[3]) = out[1]
=============================================================================
