------------------------------ MODULE CaseSweep -----------------------------
(* Sets of curves.  in = <<c1, ..., cn>>, as in Curves.                        *)
(* out = <<pairs>>, the intersections of ci and cj for i < j in order, each    *)
(* <<points, same>>: same when both lie on one circle.                        *)
EXTENDS Curves, CaseIO
CONSTANTS CAT, SIZE, M

(* ---- catalogues ------------------------------------------------------- *)
G(n) == (0..n) \X (0..n)
Seg(p, q) == <<1, p[1], p[2], q[1], q[2]>>
SegsOn(S) == {Seg(p, q) : <<p, q>> \in {t \in S \X S : LexLess(t[1], t[2])}}
Circles(S, K) == {<<2, p[1], p[2], k>> : p \in S, k \in K}
ArcsOn(S, K, D) == {<<3, p[1], p[2], k, d[1], d[2]>> : p \in S, k \in K, d \in D}
Catalogue ==
  CASE CAT = 1 -> SegsOn(G(2))
    [] CAT = 2 -> SegsOn({<<0, 0>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<2, 2>>, <<-1, 1>>})
                  \cup Circles({<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 1>>}, {1, 2, 4})
                  \cup ArcsOn({<<0, 0>>, <<1, 1>>}, {1, 2, 4}, {<<1, 5>>, <<5, 1>>, <<7, 3>>, <<2, 6>>, <<3, 1>>})
    (* segments that are only points, among others *)
    [] CAT = 4 -> SegsOn({<<0, 0>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<2, 2>>, <<2, 1>>})
                  \cup {Seg(p, p) : p \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<2, 2>>, <<0, 1>>}}
    [] CAT = 5 -> {Seg(p, p) : p \in {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<1, 1>>, <<0, 2>>, <<-1, 0>>, <<0, -1>>}}
                  \cup SegsOn({<<0, 0>>, <<2, 0>>, <<1, 1>>})
                  \cup Circles({<<0, 0>>, <<1, 0>>, <<1, 1>>}, {1, 2})
                  \cup ArcsOn({<<0, 0>>, <<1, 1>>}, {1, 2}, {<<1, 5>>, <<7, 3>>, <<2, 6>>})
    [] CAT = 3 -> SegsOn({<<0, 0>>, <<3, 0>>, <<1, 1>>, <<0, 3>>, <<3, 3>>, <<2, 1>>, <<1, 3>>})
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
CS == ToSeq(Catalogue)
InitExh ==
  /\ \E i \in 1..Len(CS) : \E j \in i..Len(CS) :
       \/ SIZE = 2 /\ in = <<CS[i], CS[j]>>
       \/ SIZE > 2 /\ \E l \in j..Len(CS) :
            \/ SIZE = 3 /\ in = <<CS[i], CS[j], CS[l]>>
            \/ SIZE > 3 /\ \E m \in l..Len(CS) : in = <<CS[i], CS[j], CS[l], CS[m]>>
  /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

RECURSIVE PairsFrom(_, _)
PairsFrom(i, n) == IF i >= n THEN <<>> ELSE [j \in 1..(n - i) |-> <<i, i + j>>] \o PairsFrom(i + 1, n)
PairSeq(n) == PairsFrom(1, n)
Result(c) == LET Q == PairSeq(Len(c)) IN
  [k \in 1..Len(Q) |-> <<Meet(c[Q[k][1]], c[Q[k][2]]), Same(c[Q[k][1]], c[Q[k][2]])>>]
Next == Call(<<Result(in)>>)

(* the pairwise part is symmetric *)
EqSurd(y, z) ==
  /\ SignSurd(0, 1, 0) = 0
  /\ \/ y = z
     \/ y[5] = z[5] /\ y[1] * z[6] = z[1] * y[6] /\ y[2] * z[6] = z[2] * y[6]
                    /\ y[3] * z[6] = z[3] * y[6] /\ y[4] * z[6] = z[4] * y[6]
CountSymmetric == Done => \A i, j \in 1..Len(in) :
  Cardinality(Meet(in[i], in[j])) = Cardinality(Meet(in[j], in[i]))
(* a common grid end point of two segments is found *)
EndsFound == Done => \A i, j \in 1..Len(in) :
  i # j /\ in[i][1] = 1 /\ in[j][1] = 1 /\ P1(in[i]) = P1(in[j]) =>
     <<P1(in[i])[1], 0, P1(in[i])[2], 0, 0, 1>> \in Meet(in[i], in[j])
=============================================================================
