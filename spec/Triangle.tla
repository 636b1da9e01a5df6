------------------------------ MODULE Triangle ------------------------------
(* A triangle and its reversals.  s = <<>> before it is made, then              *)
(* <<a, b, c, n>> after n reversals.  Observed: counterclockwise?, twice the     *)
(* signed area, the corners and the directed edges.                            *)
EXTENDS Geom
CONSTANTS N, TURNS, SEED, M
VARIABLE s
IO == INSTANCE MachineIO

Pts == (0..N) \X (0..N)
Hash(a, b, c) == (a[1] * 7 + a[2] * 11 + b[1] * 13 + b[2] * 17 + c[1] * 19 + c[2] * 23 + SEED * 29) % M
New(a, b, c) == s = <<>> /\ Hash(a, b, c) = 0 /\ s' = <<a, b, c, 0>>
Reverse == s # <<>> /\ s[4] < TURNS /\ s' = <<s[1], s[2], s[3], s[4] + 1>>
Init == s = <<>>
Next == Reverse \/ \E a \in Pts, b \in Pts, c \in Pts : New(a, b, c)

Ccw(t) == IF t[4] % 2 = 0 THEN Orient(t[1], t[2], t[3]) > 0 ELSE ~(Orient(t[1], t[2], t[3]) > 0)
Signed(t) == IF Ccw(t) THEN Abs(Area2(t[1], t[2], t[3])) ELSE -Abs(Area2(t[1], t[2], t[3]))
Edges(t) == <<<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>>>
Obs(t) == <<Ccw(t), Signed(t), <<t[1], t[2], t[3]>>, Edges(t)>>

InitPrint == Init /\ IO!EmitInit(s)
NextPrint ==
  \/ Reverse /\ IO!Emit(s, <<"reverse">>, s', Obs(s'))
  \/ \E a \in Pts, b \in Pts, c \in Pts : New(a, b, c) /\ IO!Emit(s, <<"new", a, b, c>>, s', Obs(s'))

Made == s # <<>>
(* the signed area is the shoelace area while no reversal has happened, and its *)
(* size never changes                                                         *)
Shoelace == Made => /\ s[4] = 0 => Signed(s) = Area2(s[1], s[2], s[3])
                    /\ Abs(Signed(s)) = Abs(Area2(s[1], s[2], s[3]))
Involution == Made => Obs(<<s[1], s[2], s[3], s[4] + 2>>) = Obs(s)
SignOk == Made /\ Signed(s) # 0 => (Signed(s) > 0) = Ccw(s)
=============================================================================
