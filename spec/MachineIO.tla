------------------------------ MODULE MachineIO -----------------------------
(* A machine whose transitions are printed so that the implementation can be  *)
(* walked in lockstep.  s is the abstract state; Step takes the operation op   *)
(* to state t, in which obs is what a user can observe.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Emit(s, op, t, obs) == PrintT("T" \o ToString(<<s, op, t, obs>>))
EmitInit(s) == PrintT("I" \o ToString(s))
Range(q) == {q[i] : i \in DOMAIN q}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAfter(q, i, x) == SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
=============================================================================
