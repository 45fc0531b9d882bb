----------------------------- MODULE MCVectors ------------------------------
(* Vectors, exhaustively: contents are numbers modulo three.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objects, Users, MaxBlocks
VARIABLES obj, mem
RECURSIVE MLin(_, _)
MLin(c, v) == IF c = << >> THEN 0 ELSE (c[1] * v[1] + MLin(Tail(c), Tail(v)) + 9) % 3
MConst(a, v) == v
MSetAt(a, i, v) == v
MShifted(a, v) == (a + v) % 3
INSTANCE Vectors WITH Lin <- MLin, Const <- MConst, SetAt <- MSetAt, Shifted <- MShifted
Init == \E v \in [1 .. Users -> 0 .. 2] : VInit(v)
Room == Len(mem) < MaxBlocks
Next == \E o \in Objects :
  \/ Room /\ \E kind \in {"F", "V", "A"} : New(o, kind, 1)
  \/ Delete(o)
  \/ \E v \in 0 .. 2 : Set(o, 1, v) \/ Fill(o, v)
  \/ AddDiag(o, 1)
  \/ \E b \in 1 .. Users : Adopt(o, b) \/ FromUser(o, b) \/ Put(o, b)
  \/ \E p \in Objects :
       \/ Room /\ Copy(o, p)
       \/ View(o, p) \/ Switch(o, p) \/ Opposite(o, p, -1) \/ Duplicate(o, p)
       \/ Combine(o, <<1>>, <<p>>)
       \/ \E q \in Objects : Combine(o, <<2, 1>>, <<p, q>>)
Spec == Init /\ [][Next]_<<obj, mem>>
=============================================================================
