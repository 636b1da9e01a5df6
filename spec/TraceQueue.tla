----------------------------- MODULE TraceQueue -----------------------------
(* Validates recorded histories of the real priority queue against Queue.  The  *)
(* file lists <<0, steps>>; a step is <<op, priority, tag, empty>>: op 1 push,    *)
(* 2 pop returning <<priority, tag>>, 3 pop returning nothing, 4 clear; empty is  *)
(* what the queue said of itself afterwards.  "A<id>": explained to the end.     *)
EXTENDS MachineIO, Json, IOUtils
CONSTANTS SEED
VARIABLES id, i, s

File == JsonDeserialize(IOEnv.CASES)
Q == INSTANCE Queue WITH PRIOS <- 1, CAP <- 1
Init == id \in DOMAIN File /\ i = 0 /\ s = <<>>
Steps == File[id][2]
After(e) ==
  CASE e[1] = 1 -> s' = Q!Place(s, <<e[2], e[3]>>)
    [] e[1] = 2 -> \E j \in DOMAIN s : s[j] = <<e[2], e[3]>> /\ s[j][1] = s[Len(s)][1] /\ s' = RemoveAt(s, j)
    [] e[1] = 3 -> Q!PopNone
    [] OTHER -> Q!Clear
Next ==
  /\ i < Len(Steps)
  /\ LET e == Steps[i + 1] IN
     /\ After(e)
     /\ e[4] = (s' = <<>>)
     /\ UNCHANGED id /\ i' = i + 1
     /\ IF i' = Len(Steps) THEN PrintT("A" \o ToString(id)) ELSE TRUE
     /\ IF i' % 20 = 0 THEN PrintT("P" \o ToString(<<id, i'>>)) ELSE TRUE
Sorted == \A j \in 1..(Len(s) - 1) : Q!Below(s[j], s[j + 1])
=============================================================================
