------------------------------ MODULE CaseMono ------------------------------
(* Arcs by their angles in units of a 24th turn: in = <<<<s, t>>>>.            *)
(* out = <<start, span, pieces, top>>: the arc covers start .. start + span,   *)
(* 0 <= start < 24, 0 < span <= 24; pieces is the set of its parts between   *)
(* half turns as <<from, length, in the upper half>>.                         *)
EXTENDS Integers, Sequences, FiniteSets, CaseIO
CONSTANTS BACK, HI, M

InitExh == /\ \E s \in (-BACK)..HI, t \in (-BACK)..HI : in = <<<<s, t>>>> /\ Keep(in, M)
           /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Half == 12
Full == 24
Start(s) == s % Full
Span(s, t) == IF (t - s) % Full = 0 THEN Full ELSE (t - s) % Full
(* an arc of a full turn has no ends of its own: it starts at angle zero *)
Canon(s, t) == IF Span(s, t) = Full THEN <<0, Full>> ELSE <<Start(s), Span(s, t)>>
Breaks(a, n) == {a, a + n} \cup {x \in {Half, Full, Half + Full} : a < x /\ x < a + n}
NextBreak(B, x) == CHOOSE y \in B : y > x /\ \A z \in B : z > x => z >= y
Pieces(a, n) ==
  LET B == Breaks(a, n) IN
  {<<x % Full, NextBreak(B, x) - x, (x % Full) < Half>> : x \in B \ {a + n}}
Result(s, t) == LET c == Canon(s, t) IN <<c[1], c[2], Pieces(c[1], c[2])>>
Next == Call(Result(in[1][1], in[1][2]))

(* unit cells of the circle covered by an arc *)
Cells(a, n) == {(a + i) % Full : i \in 0..(n - 1)}
Cover == Done => Cells(out[1], out[2]) = UNION {Cells(p[1], p[2]) : p \in out[3]}
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p[2] + SumLen(S \ {p})
NoOverlap == Done => SumLen(out[3]) = out[2]
OneHalf == Done => \A p \in out[3] :
  /\ 0 < p[2] /\ p[2] <= Half
  /\ \A c \in Cells(p[1], p[2]) : (c < Half) = p[3]
AtMost == Done => Cardinality(out[3]) <= 3
(* whole turns do not change the arc *)
Turns == Done => \A i \in {-2, -1, 1, 2} :
  /\ Result(in[1][1] + i * Full, in[1][2]) = out
  /\ Result(in[1][1], in[1][2] + i * Full) = out
=============================================================================
