-------------------------------- MODULE Ring --------------------------------
(* The circular list: s lists the live elements in ring order from the head.   *)
EXTENDS MachineIO
CONSTANT CAP
VARIABLE s

Fresh == Least((1..(CAP + 1)) \ Range(s))
First == s = <<>> /\ s' = <<Fresh>>
After(i) == Len(s) < CAP /\ s' = InsertAfter(s, i, Fresh)
Delete(i) == s' = RemoveAt(s, i)
Nothing == s' = s
Init == s = <<>>
Next == First \/ Nothing \/ \E i \in DOMAIN s : After(i) \/ Delete(i)
Spec == Init /\ [][Next]_s

InitPrint == Init /\ EmitInit(s)
NextPrint ==
  \/ First /\ Emit(s, <<"first", Fresh>>, s', s')
  \/ Nothing /\ Emit(s, <<"deletenone">>, s', s')
  \/ \E i \in DOMAIN s : \/ After(i) /\ Emit(s, <<"after", s[i], Fresh>>, s', s')
                         \/ Delete(i) /\ Emit(s, <<"delete", s[i]>>, s', s')
Distinct == Cardinality(Range(s)) = Len(s)
=============================================================================
