------------------------------- MODULE CaseArc ------------------------------
(* Intersections that involve an arc.  The arc is centred at the origin:     *)
(* in = <<<<kind>>, <<k, iu, iw>>, rest...>> where iu and iw index Dirs and    *)
(*   kind 1: rest = p, q          (line segment)                            *)
(*   kind 2: rest = c, <<kc>>     (circle)                                   *)
(*   kind 3: rest = c, <<kc, iu, iw>>  (arc)                                 *)
EXTENDS Geom, CaseIO
CONSTANTS KIND, N, RS, NDIRS, M

Dirs == <<<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>,
          <<2, 1>>, <<1, 2>>, <<-1, 2>>, <<-2, 1>>, <<-2, -1>>, <<-1, -2>>, <<1, -2>>, <<2, -1>>>>
Pts == (-N..N) \X (-N..N)
Arcs == RS \X (1..NDIRS) \X (1..NDIRS)
InitExh ==
  /\ \E a \in Arcs : \E p \in Pts :
       \/ KIND = 1 /\ \E q \in Pts : in = <<<<KIND>>, a, p, q>> /\ Keep(in, M)
       \/ KIND = 2 /\ \E b \in RS : in = <<<<KIND>>, a, p, <<b>>>> /\ Keep(in, M)
       \/ KIND = 3 /\ \E b \in Arcs : in = <<<<KIND>>, a, p, b>> /\ Keep(in, M)
  /\ out = Pending
InitFile == in \in FileCases /\ out = Pending

O == <<0, 0>>
kind == in[1][1]
k == in[2][1]
u == Dirs[in[2][2]]
w == Dirs[in[2][3]]
u2 == Dirs[in[4][2]]
w2 == Dirs[in[4][3]]
(* <<points, the curves share a circle, directions that represent the common part>> *)
Result ==
  CASE kind = 1 -> <<SegArc(in[3], in[4], O, k, u, w), FALSE, {}>>
    [] kind = 2 -> <<CircArc(in[3], in[4][1], O, k, u, w), SameCircle(O, k, in[3], in[4][1]), {}>>
    [] kind = 3 -> <<ArcArc(O, k, u, w, in[3], in[4][1], u2, w2), SameCircle(O, k, in[3], in[4][1]),
                     IF SameCircle(O, k, in[3], in[4][1]) THEN ArcArcEnds(u, w, u2, w2) ELSE {}>>
Next == Call(Result)

(* An arc and the arc that completes it to the circle share the points of   *)
(* the circle between them.                                                *)
Support ==
  CASE kind = 1 -> SegCirc(in[3], in[4], O, k)
    [] OTHER -> CircCirc(in[3], in[4][1], O, k)
OtherPart ==
  CASE kind = 1 -> SegArc(in[3], in[4], O, k, w, u)
    [] kind = 2 -> CircArc(in[3], in[4][1], O, k, w, u)
    [] kind = 3 -> {z \in CircCirc(in[3], in[4][1], O, k) :
                      OnArcCircle(O, w, u, z) /\ OnArcCircle(in[3], u2, w2, z)}
ThisPart ==
  CASE kind = 1 -> SegArc(in[3], in[4], O, k, u, w)
    [] kind = 2 -> CircArc(in[3], in[4][1], O, k, u, w)
    [] kind = 3 -> {z \in CircCirc(in[3], in[4][1], O, k) :
                      OnArcCircle(O, u, w, z) /\ OnArcCircle(in[3], u2, w2, z)}
Within == Done => ThisPart \subseteq Support
Partition == Done /\ kind # 3 => ThisPart \cup OtherPart = Support
Disjoint == Done =>
  \A z \in ThisPart \cap OtherPart :
     SameDir(u, w) \/ CrossDirSurd(u, DirFrom(O, z)) = 0 \/ CrossDirSurd(w, DirFrom(O, z)) = 0
=============================================================================
