------------------------------ MODULE TraceTree -----------------------------
(* Validates recorded histories of the real ordered tree against OrderedTree.  *)
(* The file lists <<mode, steps>>; a step is <<op, key, tag, comparisons,        *)
(* looked, listed>> with op 1 insert, 2 delete, 3 clear; listed is what the tree *)
(* listed after the step when looked is TRUE.  A history is accepted when some   *)
(* behaviour of the specification explains all of it; then "A<id>" is printed.   *)
EXTENDS MachineIO, Json, IOUtils
CONSTANTS SEED
VARIABLES id, i, s

File == JsonDeserialize(IOEnv.CASES)
Abs1 == INSTANCE OrderedTree WITH MODE <- 1, KEYS <- 1, CAP <- 1
Init == id \in DOMAIN File /\ i = 0 /\ s = <<>>
Mode == File[id][1]
Steps == File[id][2]
(* number of bits: logarithm to base two, rounded up *)
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
MayCompare(n) == 5 * Bits(n + 1) + 5
After(e) ==
  CASE e[1] = 1 -> {Abs1!AfterInsert(Mode, s, <<e[2], e[3]>>)}
    [] e[1] = 2 -> Abs1!AfterDelete(s, e[2])
    [] OTHER -> {<<>>}
Next ==
  /\ i < Len(Steps)
  /\ LET e == Steps[i + 1] IN
     /\ e[4] <= MayCompare(Len(s))
     /\ s' \in After(e)
     /\ e[5] => s' = e[6]
     /\ UNCHANGED id /\ i' = i + 1
     /\ IF i' = Len(Steps) THEN PrintT("A" \o ToString(id)) ELSE TRUE
     /\ IF i' % 20 = 0 THEN PrintT("P" \o ToString(<<id, i'>>)) ELSE TRUE
Sorted == \A j \in 1..(Len(s) - 1) : s[j][1] <= s[j + 1][1]
=============================================================================
