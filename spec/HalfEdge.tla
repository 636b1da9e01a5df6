------------------------------ MODULE HalfEdge ------------------------------
(* Vertices and edges of a half-edge structure.  Vertices are numbered; the     *)
(* last one has the coordinates of the first.  s = <<adj, ends, links>>:        *)
(*   adj[v]    the edges listed at vertex v, in order of addition               *)
(*   ends[e]   <<source, target>>                                              *)
(*   links[e]  <<twin, next, prev>>, 0 where none was set                       *)
(* PART selects the operations explored together.                              *)
EXTENDS MachineIO
CONSTANTS NV, NE, DEPTH, PART
VARIABLE s

V == 1..NV
E == 1..NE
Place(v) == IF v = NV THEN 1 ELSE v
(* edges are equal when they join the same places in the same direction *)
SameEdge(ends, e, f) == Place(ends[e][1]) = Place(ends[f][1]) /\ Place(ends[e][2]) = Place(ends[f][2])
adj == s[1]
ends == s[2]
links == s[3]
Ends0 == [e \in E |-> CASE e = 1 -> <<1, 2>> [] e = 2 -> <<NV, 2>> [] e = 3 -> <<2, 1>> [] OTHER -> <<2, 3>>]
Init == s = <<[v \in V |-> <<>>], Ends0, [e \in E |-> <<0, 0, 0>>]>>

Add(v, e) == Len(adj[v]) < DEPTH /\ s' = <<[adj EXCEPT ![v] = Append(@, e)], ends, links>>
Remove(v, e) == s' = <<[adj EXCEPT ![v] = SelectSeq(@, LAMBDA f : ~SameEdge(ends, e, f))], ends, links>>
SetEnd(e, k, v) == s' = <<adj, [ends EXCEPT ![e][k] = v], links>>
SetLink(e, k, f) == s' = <<adj, ends, [links EXCEPT ![e][k] = f]>>

(* An arc has no straight form to compare by: arcs occur only among links. *)
Kind(e) == IF PART = "links" /\ e % 2 = 0 THEN "arc" ELSE "segment"
Equal(t) == IF PART = "links" THEN <<>> ELSE [e \in E |-> [f \in E |-> SameEdge(t[2], e, f)]]
SamePlace == [v \in V |-> [w \in V |-> Place(v) = Place(w)]]
Obs(t) == <<t[1], t[2], t[3], [e \in E |-> Kind(e)], Equal(t), SamePlace>>
InAdj == PART \in {"list", "adj", "all"}
InEnds == PART \in {"adj", "ends", "all"}
InLinks == PART \in {"links", "all"}
LinkName == <<"twin", "next", "prev">>
EndName == <<"source", "target">>
(* "list": one vertex's list, no edge is redirected; "adj": two lists, the first edge is *)
Movable == IF PART = "adj" THEN {1} ELSE E
Listing == CASE PART = "list" -> {1} [] PART = "adj" -> {1, 2} \cap V [] OTHER -> V
ListOp(P(_, _), Q(_, _)) == InAdj /\ \E v \in Listing, e \in E : (P(v, e) \/ Q(v, e))
Next ==
  \/ ListOp(Add, Remove)
  \/ InEnds /\ \E e \in Movable, k \in 1..2, v \in V : SetEnd(e, k, v)
  \/ InLinks /\ \E e \in E, k \in 1..3, f \in E : SetLink(e, k, f)
InitPrint == Init /\ EmitInit(s)
AddPrint(v, e) == Add(v, e) /\ Emit(s, <<"add", v, e>>, s', Obs(s'))
RemovePrint(v, e) == Remove(v, e) /\ Emit(s, <<"remove", v, e>>, s', Obs(s'))
NextPrint ==
  \/ ListOp(AddPrint, RemovePrint)
  \/ InEnds /\ \E e \in Movable, k \in 1..2, v \in V : SetEnd(e, k, v) /\ Emit(s, <<EndName[k], e, v>>, s', Obs(s'))
  \/ InLinks /\ \E e \in E, k \in 1..3, f \in E : SetLink(e, k, f) /\ Emit(s, <<LinkName[k], e, f>>, s', Obs(s'))

(* equality of edges is an equivalence *)
Equivalence == \A e, f, g \in E :
  /\ SameEdge(ends, e, e)
  /\ SameEdge(ends, e, f) = SameEdge(ends, f, e)
  /\ (SameEdge(ends, e, f) /\ SameEdge(ends, f, g)) => SameEdge(ends, e, g)
=============================================================================
