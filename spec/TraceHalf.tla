------------------------------ MODULE TraceHalf -----------------------------
(* Validates recorded histories of real vertices and edges against HalfEdge.     *)
(* The file lists <<0, steps>>; a step is <<op, x, y, v, looked, listed, pairs>>:  *)
(* op 1 add edge y to vertex x, 2 remove it, 3 (4) direct edge x from (to)      *)
(* vertex y; listed is what vertex v then listed when looked is TRUE, pairs some *)
(* <<e, f, were they equal>>.  "A<id>": explained to the end.                     *)
EXTENDS MachineIO, Json, IOUtils
CONSTANTS SEED, NV, NE
VARIABLES id, i, s

File == JsonDeserialize(IOEnv.CASES)
H == INSTANCE HalfEdge WITH DEPTH <- 100000, PART <- "all"
Init == id \in DOMAIN File /\ i = 0 /\ H!Init
Steps == File[id][2]
After(e) ==
  CASE e[1] = 1 -> H!Add(e[2], e[3])
    [] e[1] = 2 -> H!Remove(e[2], e[3])
    [] e[1] = 3 -> H!SetEnd(e[2], 1, e[3])
    [] OTHER -> H!SetEnd(e[2], 2, e[3])
Next ==
  /\ i < Len(Steps)
  /\ LET e == Steps[i + 1] IN
     /\ After(e)
     /\ e[5] => s'[1][e[4]] = e[6]
     /\ \A p \in Range(e[7]) : H!SameEdge(s'[2], p[1], p[2]) = p[3]
     /\ UNCHANGED id /\ i' = i + 1
     /\ IF i' = Len(Steps) THEN PrintT("A" \o ToString(id)) ELSE TRUE
     /\ IF i' % 20 = 0 THEN PrintT("P" \o ToString(<<id, i'>>)) ELSE TRUE
(* a vertex lists an edge as often as it was added since an equal one was removed *)
Listed == \A v \in 1..NV : \A e \in Range(s[1][v]) : e \in 1..NE
=============================================================================
