-------------------------------- MODULE Queue -------------------------------
(* The priority queue: s lists the held elements <<priority, tag>> in ascending *)
(* order of priority, then tag; only priorities are compared.                  *)
(* Observed: what the operation returned, and emptiness.                       *)
EXTENDS MachineIO
CONSTANTS PRIOS, CAP
VARIABLE s

Below(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Place(q, e) == InsertAfter(q, Cardinality({i \in DOMAIN q : Below(q[i], e)}), e)
FreeTag(p) == Least((1..(CAP + 1)) \ {s[i][2] : i \in {j \in DOMAIN s : s[j][1] = p}})
Greatest(i) == \A j \in DOMAIN s : s[j][1] <= s[i][1]

Push(p) == Len(s) < CAP /\ s' = Place(s, <<p, FreeTag(p)>>)
Pop(i) == Greatest(i) /\ s' = RemoveAt(s, i)
PopNone == s = <<>> /\ s' = s
Clear == s' = <<>>
Init == s = <<>>
Next == PopNone \/ Clear \/ (\E p \in 1..PRIOS : Push(p)) \/ (\E i \in DOMAIN s : Pop(i))

Obs(result) == <<result, s' = <<>>>>
InitPrint == Init /\ EmitInit(s)
NextPrint ==
  \/ PopNone /\ Emit(s, <<"pop">>, s', Obs(<<>>))
  \/ Clear /\ Emit(s, <<"clear">>, s', Obs(<<>>))
  \/ \E p \in 1..PRIOS : Push(p) /\ Emit(s, <<"push", p, FreeTag(p)>>, s', Obs(<<>>))
  \/ \E i \in DOMAIN s : Pop(i) /\ Emit(s, <<"pop">>, s', Obs(s[i]))
Sorted == \A i \in 1..(Len(s) - 1) : Below(s[i], s[i + 1])
=============================================================================
