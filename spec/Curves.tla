------------------------------- MODULE Curves -------------------------------
(* The curves of the library and their pairwise intersections.                 *)
(*   <<1, x1, y1, x2, y2>>          line segment                              *)
(*   <<2, x, y, k>>                 circle, squared radius k                  *)
(*   <<3, x, y, k, iu, iw>>         arc, directions by index, counterclockwise *)
EXTENDS Geom

Dirs == <<<<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 1>>, <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, -1>>,
          <<2, 1>>, <<1, 2>>, <<-1, 2>>, <<-2, 1>>, <<-2, -1>>, <<-1, -2>>, <<1, -2>>, <<2, -1>>>>
(* ---- pairwise intersection -------------------------------------------- *)
Ctr(c) == <<c[2], c[3]>>
P1(c) == <<c[2], c[3]>>
P2(c) == <<c[4], c[5]>>
RatSurd(z) == <<z[1], 0, z[2], 0, 0, z[3]>>
(* the point of the circle c, k in direction d *)
AtDir(c, k, d) == LET n == Sq(d) IN <<c[1] * n, d[1], c[2] * n, d[2], k * n, n>>
Same(a, b) == a[1] # 1 /\ b[1] # 1 /\ SameCircle(Ctr(a), a[4], Ctr(b), b[4])
Meet(a, b) ==
  CASE a[1] = 1 /\ b[1] = 1 -> {RatSurd(z) : z \in SegSeg(P1(a), P2(a), P1(b), P2(b))}
    [] a[1] = 1 /\ b[1] = 2 -> SegCirc(P1(a), P2(a), Ctr(b), b[4])
    [] a[1] = 1 /\ b[1] = 3 -> SegArc(P1(a), P2(a), Ctr(b), b[4], Dirs[b[5]], Dirs[b[6]])
    [] a[1] = 2 /\ b[1] = 1 -> SegCirc(P1(b), P2(b), Ctr(a), a[4])
    [] a[1] = 2 /\ b[1] = 2 -> CircCirc(Ctr(a), a[4], Ctr(b), b[4])
    [] a[1] = 2 /\ b[1] = 3 -> CircArc(Ctr(a), a[4], Ctr(b), b[4], Dirs[b[5]], Dirs[b[6]])
    [] a[1] = 3 /\ b[1] = 1 -> SegArc(P1(b), P2(b), Ctr(a), a[4], Dirs[a[5]], Dirs[a[6]])
    [] a[1] = 3 /\ b[1] = 2 -> CircArc(Ctr(b), b[4], Ctr(a), a[4], Dirs[a[5]], Dirs[a[6]])
    [] a[1] = 3 /\ b[1] = 3 ->
         IF Same(a, b) THEN {AtDir(Ctr(a), a[4], d) : d \in ArcArcEnds(Dirs[a[5]], Dirs[a[6]], Dirs[b[5]], Dirs[b[6]])}
         ELSE ArcArc(Ctr(a), a[4], Dirs[a[5]], Dirs[a[6]], Ctr(b), b[4], Dirs[b[5]], Dirs[b[6]])
=============================================================================
