----------------------------- MODULE CheckEarcut ----------------------------
(* Validation of recorded triangulations: each case of the file is            *)
(* <<polygon, triangles, refused>> with triangles as index triples (from 1)    *)
(* and refused = <<1>> when the call was refused, otherwise empty.             *)
EXTENDS Triangulate, CaseIO

InitFile == in \in FileCases /\ out = Pending
Refused == in[3] # <<>>
Judge == IF Refused THEN IF Simple(in[1]) THEN "refused" ELSE "ok"
         ELSE IF Simple(in[1]) THEN Wrong(in[1], in[2]) ELSE "not simple"
Next == /\ ~Done
        /\ UNCHANGED in
        /\ out' = <<Judge>>
        /\ IF out'[1] = "ok" THEN TRUE ELSE PrintT("B" \o ToString(<<in, out'>>))
=============================================================================
