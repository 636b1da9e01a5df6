----------------------------- MODULE LinkedRing -----------------------------
(* The ring as linked nodes: next and prev map live nodes to live nodes, head  *)
(* and tail are nodes (0: none).  Checked to refine Ring.                      *)
EXTENDS MachineIO
CONSTANT CAP
VARIABLES next, prev, head, tail, length
vars == <<next, prev, head, tail, length>>

Ids == 1..(CAP + 1)
Live == {i \in Ids : next[i] # 0}
Fresh == Least(Ids \ Live)
RECURSIVE From(_, _)
From(i, n) == IF n = 0 THEN <<>> ELSE <<i>> \o From(next[i], n - 1)
Abs == INSTANCE Ring WITH s <- IF head = 0 THEN <<>> ELSE From(head, length)

Init == /\ next = [i \in Ids |-> 0] /\ prev = [i \in Ids |-> 0]
        /\ head = 0 /\ tail = 0 /\ length = 0
First == /\ head = 0
         /\ LET x == Fresh IN
            /\ next' = [next EXCEPT ![x] = x] /\ prev' = [prev EXCEPT ![x] = x]
            /\ head' = x /\ tail' = x /\ length' = 1
After(i) ==
  /\ length < CAP
  /\ LET x == Fresh  n == next[i] IN
     /\ next' = [next EXCEPT ![i] = x, ![x] = n]
     /\ prev' = [prev EXCEPT ![n] = x, ![x] = i]
     /\ tail' = IF tail = i THEN x ELSE tail
     /\ UNCHANGED head /\ length' = length + 1
Delete(i) ==
  LET p == prev[i]  n == next[i] IN
  /\ next' = IF length = 1 THEN [next EXCEPT ![i] = 0] ELSE [next EXCEPT ![p] = n, ![i] = 0]
  /\ prev' = IF length = 1 THEN [prev EXCEPT ![i] = 0] ELSE [prev EXCEPT ![n] = p, ![i] = 0]
  /\ head' = IF length = 1 THEN 0 ELSE IF head = i THEN n ELSE head
  /\ tail' = IF length = 1 THEN 0 ELSE IF tail = i THEN p ELSE tail
  /\ length' = length - 1
Next == First \/ \E i \in Live : After(i) \/ Delete(i)
Spec == Init /\ [][Next]_vars

Refines == Abs!Spec
Inverse == \A i \in Live : next[i] \in Live /\ prev[i] \in Live /\ next[prev[i]] = i /\ prev[next[i]] = i
Closed == head # 0 => next[tail] = head /\ prev[head] = tail
Whole == head # 0 => Range(From(head, length)) = Live /\ Cardinality(Live) = length
Empty == (head = 0) = (length = 0) /\ (tail = 0) = (length = 0)
=============================================================================
