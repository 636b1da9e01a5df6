------------------------------- MODULE CaseIO -------------------------------
(* One specified call: the state `in' is the argument tuple, `out' is       *)
(* Pending until the call is taken and the specified result afterwards.     *)
(* Each taken call is printed, so that the implementation can be given the  *)
(* same arguments and compared with the specified result.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT SEED
VARIABLES in, out

Pending == <<>>
Done == out # Pending
Call(r) == /\ ~Done
           /\ out' = r
           /\ UNCHANGED in
           /\ PrintT("C" \o ToString(<<in, out'>>))

FileCases == LET s == JsonDeserialize(IOEnv.CASES) IN {s[i] : i \in DOMAIN s}

(* deterministic sampling: keeps about one tuple in m *)
RECURSIVE HashSeq(_, _, _)
Mix(h, x) == (h * 211 + 7 * x + 4001) % 46327
HashVal(h, t) == HashSeq(h, t, 1)
HashSeq(h, t, i) ==
  IF i > Len(t) THEN h ELSE HashSeq(Mix(Mix(h, t[i]), i), t, i + 1)
RECURSIVE Flat(_, _)
Flat(t, i) == IF i > Len(t) THEN <<>> ELSE t[i] \o Flat(t, i + 1)
Keep(t, m) == m = 1 \/ HashVal(SEED % 40000, Flat(t, 1)) % m = 0
=============================================================================
