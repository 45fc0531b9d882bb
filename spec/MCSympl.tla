------------------------------ MODULE MCSympl -------------------------------
(***************************************************************************)
(* Sympl, exhaustively.                                                    *)
(*  Mode 1: numbers modulo P, every right-hand side, two stages, a few     *)
(*          matrices; histories of Steps steps.                            *)
(*  Mode 2: integers, one stage, a solution which keeps multiples of Grid  *)
(*          only: the compensated sum.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, Mode, MaxIter, Steps, Grid
VARIABLES u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started,
          rhs, A, done
avars == <<u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started, rhs, A, done>>

MPlus(a, b) == IF Mode = 1 THEN (a + b) % P ELSE a + b
MMinus(a, b) == IF Mode = 1 THEN (a - b + P) % P ELSE a - b
MTimes(a, b) == IF Mode = 1 THEN (a * b) % P ELSE a * b
RECURSIVE MComb(_, _)
MComb(c, f) == IF c = << >> THEN 0 ELSE MPlus(MTimes(c[1], f[1]), MComb(Tail(c), Tail(f)))
\* to the nearest multiple of Grid
MRound(a) == IF Mode = 1 THEN a ELSE Grid * ((a + Grid \div 2) \div Grid)

INSTANCE Sympl WITH Plus <- MPlus, Minus <- MMinus, Scale <- MTimes, Comb <- MComb, Times <- MTimes,
                    Round <- MRound, Zero <- 0, One <- 1

s == IF Mode = 1 THEN 2 ELSE 1
Numbers == IF Mode = 1 THEN 0 .. P - 1 ELSE -7 .. 7
\* explicit, implicit, singular
Matrices == IF Mode = 1 THEN {<<<<0, 0>>, <<1, 0>>>>, <<<<1, 2>>, <<2, 1>>>>, <<<<1, 1>>, <<1, 1>>>>} ELSE {<<<<0>>>>}
b == IF Mode = 1 THEN <<1, 2>> ELSE <<1>>
Q == IF Mode = 1 THEN <<<<2, 1>>, <<1, 1>>>> ELSE <<<<1>>>>
Rhs(y) == IF Mode = 1 THEN rhs[y] ELSE rhs
StepSizes == IF Mode = 1 THEN 1 .. P - 1 ELSE {1, 2}

Init ==
  /\ rhs \in (IF Mode = 1 THEN [Numbers -> Numbers] ELSE Numbers) /\ A \in Matrices /\ done = 0
  /\ \E v \in (IF Mode = 1 THEN Numbers ELSE {0, Grid}) : Create(v, s)
Next ==
  \/ /\ done < Steps /\ done' = done + 1 /\ A' = A
     /\ rhs' \in (IF Mode = 1 THEN {rhs} ELSE Numbers)
     /\ \E h \in StepSizes, first \in BOOLEAN : Begin(h, first, Q)
  \/ Iterate(A, Rhs, MaxIter) /\ UNCHANGED <<rhs, A, done>>
  \/ Accept(b) /\ UNCHANGED <<rhs, A, done>>
  \/ Fail /\ UNCHANGED <<rhs, A, done>>
  \/ /\ Mode = 1 /\ done \in 1 .. Steps - 1 /\ \E v \in Numbers : Change(v)
     /\ UNCHANGED <<rhs, A, done>>
Spec == Init /\ [][Next]_avars

Equations == GaussEquations(A, Rhs)
Limit == Bounded(MaxIter)
\* what is carried is less than what the solution can hold
SmallCarry == Mode = 2 /\ pc = "idle" => 2 * carry <= Grid /\ -2 * carry <= Grid
\* a constant right-hand side converges in two iterations at most from flat
\* starting values when the object rests
Constant == Mode = 2 => pc # "fail"
=============================================================================
