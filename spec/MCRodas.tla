------------------------------ MODULE MCRodas ------------------------------
(* Exhaustive check of the control of Rodas: times and steps are integers,  *)
(* any attempt may be accepted or rejected, new steps are any allowed ones. *)
EXTENDS Rodas, TLC, FiniteSets
CONSTANTS XMax, NMax
MCStretch(a) == IF a > 0 THEN a + 1 ELSE IF a < 0 THEN a - 1 ELSE 0
MCTooSmall(a, b) == a = 0
MCSlack(a) == 0
MCDefault(a) == IF a = 0 THEN 1 ELSE a
Opts(a, b, o, m) == [nmax |-> m, one |-> o, gus |-> TRUE, span |-> Abs(b - a), dir |-> IF b < a THEN -1 ELSE 1]
Init == InitVars(Opts(0, 0, FALSE, 0))
\* steps the law may propose from step a: a multiple between 1/3 and 3, and no
\* growth after a rejection; a rejected attempt proposes a smaller one, down to
\* nothing
GrowSteps(a) == {k \in (-3 * XMax) .. (3 * XMax) : k * a > 0 /\ Abs(k) <= 3 * Abs(a) /\ 3 * Abs(k) >= Abs(a)
                                                  /\ (rejected => Abs(k) <= Abs(a)) /\ Abs(k) <= opt.span}
ShrinkSteps(a) == {k \in (-XMax) .. XMax : k * a >= 0 /\ (Abs(k) < Abs(a) \/ (k = 0 /\ a = 0))}
MCNext ==
  \/ \E a, b \in 0 .. XMax, o \in BOOLEAN, m \in 0 .. NMax, h0 \in (-XMax - 1) .. (XMax + 1) :
       pc = "idle" /\ Start(a, b, h0, Opts(a, b, o, m))
  \/ BeginStep
  \/ pc = "try" /\ \E k \in GrowSteps(h) : Accept(IF last THEN xend ELSE x + h, k, 0)
  \/ pc = "try" /\ \E k \in ShrinkSteps(h) : Reject(k)
  \/ GiveUp
\* a null step is refused at the next step or, after rejections only, by nmax
MCInsideH == (pc = "try" /\ h # 0) => StepInside
MCLastIsLast == LastIsLast
View == <<pc, x, xend, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, opt>>
Spec == Init /\ [][MCNext]_rvars /\ WF_rvars(MCNext)
Terminates == <>(pc \in {"done", "exc"})
=============================================================================
