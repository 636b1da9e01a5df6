----------------------------- MODULE OrderedTree ----------------------------
(* The ordered tree as its user sees it: s is the listed sequence of elements  *)
(* <<key, tag>>; only keys are compared, tags tell equal keys apart.            *)
(* MODE 1: a key is held at most once.  MODE 2: equal keys are kept.            *)
EXTENDS MachineIO
CONSTANTS MODE, KEYS, CAP
VARIABLE s

Keys == 1..KEYS
Has(q, k) == \E i \in DOMAIN q : q[i][1] = k
(* equal keys: after those present *)
Place(q, e) == InsertAfter(q, Cardinality({i \in DOMAIN q : q[i][1] <= e[1]}), e)
AfterInsert(mode, q, e) == IF mode = 1 /\ Has(q, e[1]) THEN q ELSE Place(q, e)
AfterDelete(q, k) == IF Has(q, k) THEN {RemoveAt(q, i) : i \in {j \in DOMAIN q : q[j][1] = k}} ELSE {q}
FreeTag(q, k) == Least((1..(CAP + 1)) \ {q[i][2] : i \in {j \in DOMAIN q : q[j][1] = k}})

Insert(k) == /\ Len(s) < CAP \/ (MODE = 1 /\ Has(s, k))
             /\ s' = AfterInsert(MODE, s, <<k, FreeTag(s, k)>>)
Delete(k) == s' \in AfterDelete(s, k)
Clear == s' = <<>>
Init == s = <<>>
Next == Clear \/ \E k \in Keys : Insert(k) \/ Delete(k)
Spec == Init /\ [][Next]_s

InitPrint == Init /\ EmitInit(s)
NextPrint ==
  \/ Clear /\ Emit(s, <<"clear">>, s', s')
  \/ \E k \in Keys : \/ Insert(k) /\ Emit(s, <<"insert", k, FreeTag(s, k)>>, s', s')
                     \/ Delete(k) /\ Emit(s, <<"delete", k>>, s', s')

Sorted == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Distinct == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
OneEach == MODE = 1 => \A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1]
=============================================================================
