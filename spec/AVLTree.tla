------------------------------- MODULE AVLTree ------------------------------
(* A height-balanced search tree that implements OrderedTree.  A tree is       *)
(* <<>> or <<element, height, left, right>>.  The module is checked to refine   *)
(* OrderedTree, and its transitions, one for every shape and operation,        *)
(* provide the histories the code is walked through.                           *)
EXTENDS MachineIO
CONSTANTS MODE, KEYS, CAP
VARIABLE t

Nil == <<>>
Height(x) == IF x = Nil THEN 0 ELSE x[2]
Max(a, b) == IF a > b THEN a ELSE b
Node(e, l, r) == <<e, Max(Height(l), Height(r)) + 1, l, r>>
El(x) == x[1]
Left(x) == x[3]
Right(x) == x[4]
Key(x) == x[1][1]
Tilt(x) == IF x = Nil THEN 0 ELSE Height(Left(x)) - Height(Right(x))
RotRight(x) == LET l == Left(x) IN Node(El(l), Left(l), Node(El(x), Right(l), Right(x)))
RotLeft(x) == LET r == Right(x) IN Node(El(r), Node(El(x), Left(x), Left(r)), Right(r))
Balance(x) ==
  IF Tilt(x) > 1 THEN IF Tilt(Left(x)) >= 0 THEN RotRight(x)
                      ELSE RotRight(Node(El(x), RotLeft(Left(x)), Right(x)))
  ELSE IF Tilt(x) < -1 THEN IF Tilt(Right(x)) <= 0 THEN RotLeft(x)
                            ELSE RotLeft(Node(El(x), Left(x), RotRight(Right(x))))
  ELSE x
RECURSIVE Ins(_, _), MinOf(_), DelMin(_), Del(_, _), InOrder(_), Good(_)
Ins(x, e) ==
  IF x = Nil THEN Node(e, Nil, Nil)
  ELSE IF e[1] < Key(x) THEN Balance(Node(El(x), Ins(Left(x), e), Right(x)))
  ELSE IF e[1] > Key(x) \/ MODE = 2 THEN Balance(Node(El(x), Left(x), Ins(Right(x), e)))
  ELSE x
MinOf(x) == IF Left(x) = Nil THEN El(x) ELSE MinOf(Left(x))
DelMin(x) == IF Left(x) = Nil THEN Right(x) ELSE Balance(Node(El(x), DelMin(Left(x)), Right(x)))
Del(x, k) ==
  IF x = Nil THEN Nil
  ELSE IF k < Key(x) THEN Balance(Node(El(x), Del(Left(x), k), Right(x)))
  ELSE IF k > Key(x) THEN Balance(Node(El(x), Left(x), Del(Right(x), k)))
  ELSE IF Left(x) = Nil THEN Right(x)
  ELSE IF Right(x) = Nil THEN Left(x)
  ELSE Balance(Node(MinOf(Right(x)), Left(x), DelMin(Right(x))))
InOrder(x) == IF x = Nil THEN <<>> ELSE InOrder(Left(x)) \o <<El(x)>> \o InOrder(Right(x))

Abs == INSTANCE OrderedTree WITH s <- InOrder(t)
Size == Len(InOrder(t))
Insert(k) == /\ Size < CAP \/ (MODE = 1 /\ Abs!Has(InOrder(t), k))
             /\ t' = Ins(t, <<k, Abs!FreeTag(InOrder(t), k)>>)
Delete(k) == t' = Del(t, k)
Clear == t' = Nil
Init == t = Nil
Next == Clear \/ \E k \in 1..KEYS : Insert(k) \/ Delete(k)
Spec == Init /\ [][Next]_t

InitPrint == Init /\ EmitInit(t)
NextPrint ==
  \/ Clear /\ Emit(t, <<"clear">>, t', InOrder(t'))
  \/ \E k \in 1..KEYS : \/ Insert(k) /\ Emit(t, <<"insert", k, Abs!FreeTag(InOrder(t), k)>>, t', InOrder(t'))
                        \/ Delete(k) /\ Emit(t, <<"delete", k>>, t', InOrder(t'))

Refines == Abs!Spec
Good(x) == x = Nil \/ /\ x[2] = Max(Height(Left(x)), Height(Right(x))) + 1
                      /\ Tilt(x) \in {-1, 0, 1}
                      /\ Good(Left(x)) /\ Good(Right(x))
Balanced == Good(t)
(* the height of a balanced tree of n elements *)
RECURSIVE FewestAt(_)
FewestAt(h) == IF h <= 0 THEN 0 ELSE IF h = 1 THEN 1 ELSE 1 + FewestAt(h - 1) + FewestAt(h - 2)
Low == Size >= FewestAt(Height(t))
=============================================================================
