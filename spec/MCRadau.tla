------------------------------ MODULE MCRadau ------------------------------
(* Exhaustive check of the control of Radau5: times and steps are integers, *)
(* an attempt may fail, be rejected or accepted, new steps are any allowed. *)
EXTENDS Radau, TLC, FiniteSets
CONSTANTS XMax, NMax
MCStretch(a) == IF a > 0 THEN a + 1 ELSE IF a < 0 THEN a - 1 ELSE 0
MCArrived(a, b) == a = b
MCSlack(a) == 0
MCTiny(a) == 0
MCDefault(a) == IF a = 0 THEN 1 ELSE a
Opts(a, b, o, m) == [again |-> FALSE, nmax |-> m, one |-> o, gus |-> TRUE, span |-> Abs(b - a), dir |-> IF b < a THEN -1 ELSE 1]
Init == InitVars(Opts(0, 0, FALSE, 0))
GrowSteps(a) == {k \in (-3 * XMax) .. (3 * XMax) : k * a > 0 /\ Abs(k) <= 3 * Abs(a) /\ 3 * Abs(k) >= Abs(a)
                                                  /\ (rejected => Abs(k) <= Abs(a)) /\ Abs(k) <= opt.span}
ShrinkSteps(a) == {k \in (-XMax) .. XMax : k * a > 0 /\ Abs(k) < Abs(a)}
Fail(hn) == NewtonFails(hn) \/ Reject(hn)
MCNext ==
  \* the first integration is any one, a second one (after any end of the first) is a given one
  \/ pc = "idle" /\ \E a, b \in 0 .. XMax, o \in BOOLEAN, m \in {0, NMax}, h0 \in {-1, 0, 1, 2, XMax + 1} :
       Start(a, b, h0, Opts(a, b, o, m))
  \/ pc \in {"done", "exc"} /\ ~opt.again /\ Start(0, XMax, 1, [Opts(0, XMax, FALSE, 1) EXCEPT !.again = TRUE])
  \* the old step is kept when the one proposed is slightly larger only
  \/ \E j, k \in BOOLEAN : (k => fact # << >> /\ Abs(fact[1]) <= Abs(h)) /\ Begin(j, k)
  \/ pc = "try" /\ \E k \in GrowSteps(h) : Accept(x + h, k, 0)
  \/ pc = "try" /\ \E k \in ShrinkSteps(h) : Fail(k)
  \* a step which cannot be reduced any more is tried again until the limit
  \/ pc = "try" /\ Abs(h) = 1 /\ Fail(h)
  \/ GiveUp
View == <<pc, x, xend, h, last, rejected, y - jac, fact, nstep, naccpt, nrejct, njac, ndec, opt>>
Spec == Init /\ [][MCNext]_rvars /\ WF_rvars(MCNext)
Terminates == (pc # "idle") ~> (pc \in {"done", "exc"})
\* an integration starts with nothing remembered of the previous ones
Fresh == [][(pc \in {"idle", "done", "exc"} /\ pc' = "point") =>
             (nstep' = 0 /\ naccpt' = 0 /\ nrejct' = 0 /\ njac' = 0 /\ ndec' = 0 /\ jac' = -1 /\ last' = FALSE /\ rejected' = FALSE)]_rvars
=============================================================================
