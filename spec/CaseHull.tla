------------------------------ MODULE CaseHull ------------------------------
(* Convex hull.  in = <<p1, ..., pn>>, out = <<h1, ..., hm>> counterclockwise    *)
(* from the lexicographically smallest point.                               *)
(* INIT InitSets: every non-empty subset of the grid; InitExh: every list of *)
(* LEN points of the grid; InitFile: the lists of a file.                    *)
EXTENDS Geom, CaseIO
CONSTANTS N, LEN, M

Pts == (0..N) \X (0..N)
RECURSIVE SortLex(_)
SortLex(S) == IF S = {} THEN <<>>
              ELSE LET p == CHOOSE p \in S : \A q \in S : p = q \/ LexLess(p, q)
                   IN <<p>> \o SortLex(S \ {p})
Bit(n, i) == (n \div (2 ^ i)) % 2
GridSeq == SortLex(Pts)
InitSets == /\ \E m \in 1..(2 ^ ((N + 1) * (N + 1)) - 1) :
                 /\ (M = 1 \/ (m * 7919 + SEED) % M = 0)
                 /\ in = SelectSeq(GridSeq, LAMBDA p : Bit(m, p[1] * (N + 1) + p[2]) = 1)
            /\ out = Pending
InitExh == /\ in \in [1..LEN -> Pts] /\ Keep(in, M) /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

Set(s) == {s[i] : i \in DOMAIN s}
(* ---- what a hull is: p is a vertex when it is not between two other      *)
(* points nor inside or on a triangle of other points                       *)
InTri(a, b, c, p) ==
  LET x == Orient(a, b, p)  y == Orient(b, c, p)  z == Orient(c, a, p) IN
  (x >= 0 /\ y >= 0 /\ z >= 0) \/ (x <= 0 /\ y <= 0 /\ z <= 0)
(* an extreme point has all others strictly on one side of a line through it *)
(* or, equivalently, some other point b such that all points lie on or left  *)
(* of p -> b, those on the line lying ahead of p                              *)
Extreme(S, p) ==
  \/ S = {p}
  \/ \E b \in S \ {p} : \A q \in S \ {p} :
        \/ Orient(p, b, q) > 0
        \/ Orient(p, b, q) = 0 /\ Dot(Sub(b, p), Sub(q, p)) > 0
Lowest(S) == CHOOSE p \in S : \A q \in S : p = q \/ LexLess(p, q)
(* counterclockwise successor of extreme point p *)
Succ(S, E, p) == CHOOSE q \in E \ {p} : \A r \in S : Orient(p, q, r) >= 0
RECURSIVE Around(_, _, _, _)
Around(S, E, p, first) ==
  LET q == Succ(S, E, p) IN IF q = first THEN <<p>> ELSE <<p>> \o Around(S, E, q, first)
Hull(S) ==
  LET E == {p \in S : Extreme(S, p)}
      a == Lowest(S)
  IN CASE Cardinality(E) = 1 -> <<a>>
       [] Cardinality(E) = 2 -> <<a>> \o SortLex(E \ {a})
       [] OTHER -> Around(S, E, a, a)
Next == Call(Hull(Set(in)))

(* ---- the monotone chain algorithm gives the same ---------------------- *)
RECURSIVE Pop(_, _)
Pop(st, p) == IF Len(st) >= 2 /\ Orient(st[Len(st) - 1], st[Len(st)], p) <= 0
              THEN Pop(SubSeq(st, 1, Len(st) - 1), p) ELSE Append(st, p)
RECURSIVE Chain(_, _, _)
Chain(s, i, st) == IF i > Len(s) THEN st ELSE Chain(s, i + 1, Pop(st, s[i]))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Butlast(s) == SubSeq(s, 1, Len(s) - 1)
MonotoneChain(S) ==
  LET s == SortLex(S) IN
  IF Len(s) = 1 THEN s ELSE Butlast(Chain(s, 1, <<>>)) \o Butlast(Chain(Reverse(s), 1, <<>>))
ChainAgrees == Done => MonotoneChain(Set(in)) = out
Convex == Done /\ Len(out) >= 3 => \A i \in 1..Len(out) :
  Orient(out[i], out[(i % Len(out)) + 1], out[((i + 1) % Len(out)) + 1]) > 0
Encloses == Done /\ Len(out) >= 3 => \A p \in Set(in) : \A i \in 1..Len(out) :
  Orient(out[i], out[(i % Len(out)) + 1], p) >= 0
Between == Done /\ Len(out) = 2 => \A p \in Set(in) : OnSeg(out[1], out[2], p)
FromInput == Done => Set(out) \subseteq Set(in) /\ out[1] = Lowest(Set(in))
=============================================================================
