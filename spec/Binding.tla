------------------------------- MODULE Binding -------------------------------
(* The WebAssembly Segment2 and sweep objects over a history.                   *)
(* A Segment2 has a kind and one slot per kind, each empty (0) or holding       *)
(* variant 1 or 2; it stands for the curve in the slot of its kind, whatever    *)
(* the other slots hold.  Pushing it gives the sweep that curve: later changes   *)
(* of the segment do not reach the sweep.                                       *)
(* s = <<kind, slots, pushed>>; pushed is a set of curve numbers.                *)
(* All curves meet in integer points.                                           *)
EXTENDS Curves
CONSTANTS CAP
VARIABLE s
IO == INSTANCE MachineIO

Curve == <<<<1, 2, 5, 6, 5>>, <<1, 3, -6, 3, 6>>,
           <<2, 0, 0, 25>>, <<2, 6, 0, 25>>,
           <<3, 7, 1, 25, 3, 5>>, <<3, 0, 8, 25, 7, 1>>>>
Kinds == 1..3
Number(k, v) == 2 * (k - 1) + v
KindOf(c) == (c + 1) \div 2
Full(t) == t[2][t[1]] # 0
Denotes(t) == Number(t[1], t[2][t[1]])

Root(d) == CHOOSE r \in 0..200 : r * r <= d /\ (r + 1) * (r + 1) > d
Whole(z) == LET r == Root(z[5]) IN <<(z[1] + z[2] * r) \div z[6], (z[3] + z[4] * r) \div z[6]>>
IsWhole(z) == LET r == Root(z[5]) IN
  /\ (z[2] = 0 /\ z[4] = 0) \/ r * r = z[5]
  /\ (z[1] + z[2] * r) % z[6] = 0 /\ (z[3] + z[4] * r) % z[6] = 0
MeetTable == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN {} ELSE Meet(Curve[i], Curve[j])]]
ASSUME \A i, j \in 1..6 : \A z \in MeetTable[i][j] : IsWhole(z)
ASSUME \A i, j \in 1..6 : i # j => ~Same(Curve[i], Curve[j])
Points == [i \in 1..6 |-> [j \in 1..6 |-> {Whole(z) : z \in MeetTable[i][j]}]]
ASSUME \A i, j \in 1..6 : Points[i][j] = Points[j][i]
(* what the sweep reports for a set of curves *)
Report(C) == UNION {Points[i][j] : <<i, j>> \in {p \in C \X C : p[1] < p[2]}}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE
  LET x == CHOOSE x \in S : \A y \in S : y = x \/ LexLess(x, y) IN <<x>> \o InOrder(S \ {x})

Init == s = <<1, <<0, 0, 0>>, {}>>
SetKind(k) == k # s[1] /\ s' = <<k, s[2], s[3]>>
SetSlot(k, v) == v # s[2][k] /\ s' = <<s[1], [s[2] EXCEPT ![k] = v], s[3]>>
Push == Full(s) /\ Denotes(s) \notin s[3] /\ Cardinality(s[3]) < CAP /\ s' = <<s[1], s[2], s[3] \cup {Denotes(s)}>>
Query == s' = s
Probe(j) == Full(s) /\ j # Denotes(s) /\ s' = s
Next == \/ \E k \in Kinds : SetKind(k)
        \/ \E k \in Kinds, v \in 0..2 : SetSlot(k, v)
        \/ Push \/ Query
        \/ \E j \in 1..6 : Probe(j)

(* Observed: kind and slots read back, and the points an operation returned *)
Obs(t, pts) == <<t[1], t[2], InOrder(pts)>>
InitPrint == Init /\ IO!EmitInit(s)
NextPrint ==
  \/ \E k \in Kinds : SetKind(k) /\ IO!Emit(s, <<"kind", k>>, s', Obs(s', {}))
  \/ \E k \in Kinds, v \in 0..2 : SetSlot(k, v) /\ IO!Emit(s, <<"slot", k, v>>, s', Obs(s', {}))
  \/ Push /\ IO!Emit(s, <<"push">>, s', Obs(s', {}))
  \/ Query /\ IO!Emit(s, <<"query">>, s', Obs(s', Report(s[3])))
  \/ \E j \in 1..6 : Probe(j) /\ IO!Emit(s, <<"probe", j>>, s', Obs(s', Points[Denotes(s)][j]))

(* no operation on the segment changes what the sweep reports, and pushing only adds *)
Isolation == [][(s'[3] = s[3])
                \/ (s'[1] = s[1] /\ s'[2] = s[2] /\ Report(s[3]) \subseteq Report(s'[3]))]_s
(* what the segment stands for depends on its own kind's slot only *)
OwnSlot == Full(s) => KindOf(Denotes(s)) = s[1]
Spec == Init /\ [][Next]_s
=============================================================================
