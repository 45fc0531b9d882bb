-------------------------------- MODULE Sympl -------------------------------
(***************************************************************************)
(* Implicit Gauss Runge-Kutta steps solved by fixed point iterations, with *)
(* starting values and compensated summation (SymplecticRK).               *)
(*                                                                         *)
(* Vectors are abstract: Plus adds two of them, Scale multiplies one by a  *)
(* number, Comb(c, F) is the combination of the vectors F by the numbers   *)
(* c, Minus subtracts; Round is what an addition to the solution keeps.    *)
(*   Create            a new object, nothing known                         *)
(*   Begin(h, first)   a step is asked for: coefficients and old step are  *)
(*                     those of h; starting values                         *)
(*   Iterate(F)        one fixed point iteration with the values F of the  *)
(*                     right-hand side at the stages                       *)
(*   Accept, Fail      end of the step                                     *)
(*   Change(v)         the user changes the solution between two steps     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Plus(_, _), Minus(_, _), Scale(_, _), Comb(_, _), Times(_, _), Round(_),
          Zero, One

\* ---- the method -----------------------------------------------------------
Coefs(h, row) == [j \in 1 .. Len(row) |-> Times(h, row[j])]
Stages(A, h, u, F) == [i \in 1 .. Len(A) |-> Plus(u, Comb(Coefs(h, A[i]), F))]
Increment(b, h, F) == Comb(Coefs(h, b), F)
Flat(s, u) == [i \in 1 .. s |-> u]
\* the collocation polynomial of the step from u with values F, at 1 + c_i
Beyond(Q, h, u, F) == Stages(Q, h, u, F)

VARIABLES u,      \* the solution, as the user sees it
          carry,  \* what was lost when it was updated
          old,    \* the step of the coefficients
          poly,   \* what the collocation polynomial is made of: [known, base, h, F]
          Y, F, iter, same, pc, ok,
          exact,  \* initial value and all the increments of successful steps
          started \* how the current step was started
svars == <<u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started>>

Create(v, s) ==
  /\ u = v /\ carry = Zero /\ old = One /\ exact = v
  /\ poly = [known |-> FALSE] /\ Y = Flat(s, v) /\ F = Flat(s, Zero)
  /\ iter = 0 /\ same = 1 /\ pc = "idle" /\ ok = FALSE /\ started = "no"

StartKind(h, first) == IF ~first /\ old = h THEN "beyond" ELSE "flat"

Begin(h, first, Q) ==
  /\ pc = "idle"
  /\ old' = h /\ iter' = 0 /\ pc' = "iterate" /\ ok' = FALSE
  /\ started' = StartKind(h, first)
  \* without a polynomial of this step, what is left in memory: any values
  /\ Y' = IF started' = "flat" THEN Flat(Len(Q), u)
          ELSE IF poly.known THEN Beyond(Q, h, poly.base, poly.F) ELSE Y
  /\ UNCHANGED <<u, carry, poly, F, same, exact>>

\* same: how many of the last iterations changed nothing
Iterate(A, rhs(_), itermax) ==
  /\ pc = "iterate" /\ iter < itermax
  /\ F' = [i \in 1 .. Len(A) |-> rhs(Y[i])]
  /\ Y' = Stages(A, old, u, F')
  /\ iter' = iter + 1
  /\ same' = IF Y' = Y THEN same + 1 ELSE 0
  /\ pc' = IF same' >= 2 THEN "accept" ELSE IF iter' = itermax THEN "fail" ELSE "iterate"
  /\ UNCHANGED <<u, carry, old, poly, ok, exact, started>>

Accept(b) ==
  /\ pc = "accept" /\ pc' = "idle" /\ ok' = TRUE
  /\ LET d == Increment(b, old, F) IN
     /\ u' = Round(Plus(u, Plus(carry, d)))
     /\ carry' = Plus(Plus(carry, d), Minus(u, u'))
     /\ exact' = Plus(exact, d)
  /\ poly' = [known |-> TRUE, base |-> u, h |-> old, F |-> F]
  /\ UNCHANGED <<old, Y, F, iter, same, started>>

Fail ==
  /\ pc = "fail" /\ pc' = "idle" /\ ok' = FALSE
  /\ poly' = [known |-> FALSE]
  /\ UNCHANGED <<u, carry, old, Y, F, iter, same, exact, started>>

Change(v) ==
  /\ pc = "idle" /\ u' = v /\ exact' = Plus(v, carry) /\ poly' = [known |-> FALSE]
  /\ UNCHANGED <<carry, old, Y, F, iter, same, pc, ok, started>>

\* ---- what users rely on ---------------------------------------------------
\* S01: at success the stages satisfy the Gauss equations
GaussEquations(A, rhs(_)) == pc = "accept" => Y = Stages(A, old, u, [i \in 1 .. Len(A) |-> rhs(Y[i])])
Bounded(itermax) == iter <= itermax
\* S01, S04: only a success changes something
FailureChangesNothing == [][pc = "fail" => UNCHANGED <<u, carry, exact>>]_svars
OnlyAccept == [][pc # "idle" /\ u' # u => pc = "accept" /\ ok']_svars
\* S04: nothing is lost
NothingLost == pc = "idle" => Plus(u, carry) = exact
\* S03: a polynomial is used for the step it was made with only
RightPolynomial == [][pc = "idle" /\ pc' = "iterate" /\ started' = "beyond" /\ poly.known => poly.h = old']_svars
=============================================================================
