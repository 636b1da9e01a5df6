------------------------------ MODULE TraceBulk -----------------------------
(* Validates recorded bulk histories of the real ordered tree: many thousands  *)
(* of insertions and deletions, recorded as progressions of keys.             *)
(* The file lists <<mode, steps>>.  Mode 1 holds every key once, mode 2 keeps   *)
(* equal keys.  A step is <<op, first, stride, count, work, length, looked,     *)
(* listed>>: op 1 inserts and op 2 deletes, in this order, the keys              *)
(*   first, first + stride, ..., first + (count - 1) * stride                 *)
(* work lists <<b, c>>: an operation on a tree whose size has b bits took at     *)
(* most c comparisons.  length is the length of what the tree lists after the  *)
(* step, and listed the keys when looked is TRUE.                             *)
EXTENDS MachineIO, Json, IOUtils, FiniteSetsExt
CONSTANTS SEED
VARIABLES id, i, s, n

File == JsonDeserialize(IOEnv.CASES)
Mode == File[id][1]
Steps == File[id][2]
(* n is the number of elements held; in mode 2, s gives how often a key is held. *)
(* In mode 1 what is held follows from the steps so far.                     *)
Init == id \in DOMAIN File /\ i = 0 /\ n = 0 /\ s = [k \in {} |-> 0]

RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
Logarithmic(e) == \A j \in DOMAIN e[5] : e[5][j][2] <= 5 * e[5][j][1] + 5

(* ---- every key once ---- *)
Among(k, lo, d, c) == k >= lo /\ k <= lo + (c - 1) * d /\ (k - lo) % d = 0
Concerns(e, k) ==
  IF e[4] = 0 THEN FALSE
  ELSE IF e[3] = 0 THEN k = e[2]
  ELSE IF e[3] > 0 THEN Among(k, e[2], e[3], e[4])
  ELSE Among(k, e[2] + (e[4] - 1) * e[3], -e[3], e[4])
(* whether k is held after the first j steps: the last that concerns it decides *)
RECURSIVE Holds(_, _)
Holds(j, k) == IF j = 0 THEN FALSE
               ELSE IF Concerns(Steps[j], k) THEN Steps[j][1] = 1 ELSE Holds(j - 1, k)
Changes(e) ==
  Quantify(0..(IF e[3] = 0 THEN Min({e[4], 1}) - 1 ELSE e[4] - 1), LAMBDA j : Holds(i, e[2] + j * e[3]) = (e[1] = 2))
SizeOnce(e) == IF e[1] = 1 THEN n + Changes(e) ELSE n - Changes(e)
ListsOnce(q) ==
  /\ Len(q) = n'
  /\ \A j \in 1..(Len(q) - 1) : q[j] < q[j + 1]
  /\ \A j \in DOMAIN q : Holds(i + 1, q[j])

(* ---- equal keys kept ---- *)
Keys(e) == {e[2] + j * e[3] : j \in 0..(IF e[3] = 0 THEN Min({e[4], 1}) - 1 ELSE e[4] - 1)}
Times(e, k) == IF k \notin Keys(e) THEN 0 ELSE IF e[3] = 0 THEN e[4] ELSE 1
Held(k) == IF k \in DOMAIN s THEN s[k] ELSE 0
AfterBag(e) ==
  LET K == DOMAIN s \cup Keys(e)
      h == [k \in K |-> IF e[1] = 1 THEN Held(k) + Times(e, k)
                        ELSE IF Held(k) > Times(e, k) THEN Held(k) - Times(e, k) ELSE 0]
  IN [k \in {x \in K : h[x] > 0} |-> h[k]]
SizeBag(f) == MapThenSumSet(LAMBDA k : f[k], DOMAIN f)
ListsBag(q) ==
  /\ Len(q) = n'
  /\ \A j \in 1..(Len(q) - 1) : q[j] <= q[j + 1]
  /\ \A k \in DOMAIN s' : Quantify(DOMAIN q, LAMBDA j : q[j] = k) = s'[k]

Next ==
  /\ i < Len(Steps)
  /\ LET e == Steps[i + 1] IN
     /\ Logarithmic(e)
     /\ s' = IF Mode = 1 THEN s ELSE AfterBag(e)
     /\ n' = IF Mode = 1 THEN SizeOnce(e) ELSE SizeBag(s')
     /\ e[6] = n'
     (* as a value: TLC would take every \A of an action apart *)
     /\ (e[7] => IF Mode = 1 THEN ListsOnce(e[8]) ELSE ListsBag(e[8])) = TRUE
     /\ UNCHANGED id /\ i' = i + 1
     /\ IF i' = Len(Steps) THEN PrintT("A" \o ToString(id)) ELSE TRUE
     /\ PrintT("P" \o ToString(<<id, i'>>))
Counted == n >= 0 /\ (Mode = 2 => (n = 0) = (DOMAIN s = {}))
=============================================================================
