------------------------------ MODULE TraceRing -----------------------------
(* Validates recorded histories of the real circular list against Ring.  The     *)
(* file lists <<0, steps>>; a step is <<op, at, tag, length, looked, ring>>: op 1  *)
(* insert into the empty list, 2 insert after the element at, 3 delete it,       *)
(* 4 delete nothing; ring is what following next from the head visited when      *)
(* looked is TRUE.  "A<id>": explained to the end.                               *)
EXTENDS MachineIO, Json, IOUtils
CONSTANTS SEED
VARIABLES id, i, s

File == JsonDeserialize(IOEnv.CASES)
R == INSTANCE Ring WITH CAP <- 1
Init == id \in DOMAIN File /\ i = 0 /\ s = <<>>
Steps == File[id][2]
After(e) ==
  CASE e[1] = 1 -> s = <<>> /\ s' = <<e[3]>>
    [] e[1] = 2 -> \E j \in DOMAIN s : s[j] = e[2] /\ s' = InsertAfter(s, j, e[3])
    [] e[1] = 3 -> \E j \in DOMAIN s : s[j] = e[2] /\ R!Delete(j)
    [] OTHER -> R!Nothing
Next ==
  /\ i < Len(Steps)
  /\ LET e == Steps[i + 1] IN
     /\ After(e)
     /\ Len(s') = e[4]
     /\ e[5] => s' = e[6]
     /\ UNCHANGED id /\ i' = i + 1
     /\ IF i' = Len(Steps) THEN PrintT("A" \o ToString(id)) ELSE TRUE
     /\ IF i' % 20 = 0 THEN PrintT("P" \o ToString(<<id, i'>>)) ELSE TRUE
Distinct == R!Distinct
=============================================================================
