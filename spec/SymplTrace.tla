----------------------------- MODULE SymplTrace -----------------------------
(***************************************************************************)
(* Recorded histories of SymplecticRK objects against module Sympl.        *)
(*   new    precision, number of stages s, size n, iteration limit         *)
(*   step   a step is asked for: h, first, solution, starting values Y0    *)
(*   it     one iteration: stages Y, values F, and, if it is not the last  *)
(*          one, the next stages Z                                         *)
(*   out    how the step ends                                              *)
(*   far    a whole step of a long integration                             *)
(*   reset  the user changes the solution after an explosion               *)
(* The coefficients are those which SymplMethod judges.                    *)
(***************************************************************************)
EXTENDS TraceLib

Tables == JsonDeserialize(IOEnv.TABLES)
VARIABLES u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started
LOCAL Rnd(a) == a
INSTANCE Sympl WITH Plus <- VAdd, Minus <- VSub, Scale <- VScale, Comb <- LinComb, Times <- Mul,
                    Round <- Rnd, Zero <- 0, One <- 1

VARIABLES big,    \* largest solution and increments: what may be carried
          steps,  \* successful steps since the exact sum is followed
          tr, l, bad
tvars == <<u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started, big, steps, tr, l, bad>>
Recs == Traces[tr]
Rec == Recs[l]
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr

New == Recs[1]
s == New.s
n == New.n
T == LET k == CHOOSE k \in 1 .. Len(Tables) : Tables[k].prec = New.prec /\ Tables[k].s = New.s IN Tables[k]
Eps == IF New.prec = "double" THEN "2.3E-16" ELSE "1.1E-19"
Tol(k, x) == Mul(Mul(Eps, k), x)

\* sums of absolute values, for the rounding errors
RoundingOfRow(row, h, v, f) == Add(NormInf(v), NormInf(AbsComb(Coefs(h, row), f)))
Roundings(M, h, v, f) == Vec([i \in 1 .. Len(M) |-> RoundingOfRow(M[i], h, v, f)])
AllNum(M) == \A i \in 1 .. Len(M) : VIsNum(M[i])
CloseStages(G, W, k, r) == \A i \in 1 .. Len(G) : VNear(G[i], W[i], Tol(k, r[i]))

\* u, Y, F, poly and started are positions of records or small values;
\* the numbers are in the records
TraceInit ==
  /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ steps = 0 /\ big = 0
  /\ u = 0 /\ carry = 0 /\ old = 1 /\ poly = [known |-> FALSE] /\ Y = 0 /\ F = 0
  /\ iter = 0 /\ same = 1 /\ pc = "none" /\ ok = FALSE /\ exact = << >> /\ started = "no"

TraceNew ==
  /\ IsRec("new") /\ Go /\ l = 1 /\ pc' = "idle"
  /\ UNCHANGED <<u, carry, old, poly, Y, F, iter, same, ok, exact, started, big, steps, bad>>

\* Begin: the starting values
TraceStep ==
  /\ IsRec("step") /\ Go /\ pc = "idle" /\ pc' = "iterate"
  /\ LET kind == IF ~Rec.first /\ Eq(old, Rec.h) THEN "beyond" ELSE "flat"
         from == Recs[poly.at]
         vals == Recs[poly.it].F
         judged == kind = "beyond" /\ poly.known /\ AllNum(vals) /\ VIsNum(from.u)
     IN /\ started' = kind
        /\ bad' = bad
             \union (IF kind = "flat" THEN Must(\A i \in 1 .. s : VSame(Rec.Y0[i], Rec.u), "S03", "starting values are not the solution")
                     ELSE IF judged THEN Must(CloseStages(Rec.Y0, Beyond(T.q, Rec.h, from.u, vals), Mul(s + 4, Div("2.3E-16", Eps)),
                                                          Roundings(T.q, Rec.h, from.u, vals)), "S03", "starting values are not extrapolated values")
                     ELSE {})
  /\ old' = Rec.h /\ u' = l /\ iter' = 0
  /\ UNCHANGED <<carry, poly, Y, F, same, ok, exact, big, steps>>

\* Iterate
TraceIt ==
  /\ IsRec("it") /\ Go /\ pc = "iterate"
  /\ LET S == Recs[u]
         good == AllNum(Rec.Y) /\ AllNum(Rec.F) /\ VIsNum(S.u)
     IN bad' = bad
          \union Must(Rec.q = 0 => \A i \in 1 .. s : VSame(Rec.Y[i], S.Y0[i]) \/ ~VIsNum(Rec.Y[i]), "ALL", "broken record")
          \union (IF good /\ Rec.next
                  THEN Must(CloseStages(Rec.Z, Stages(T.a, S.h, S.u, Rec.F), s + 4, Roundings(T.a, S.h, S.u, Rec.F)), "S01", "an iteration")
                       \union Must(CloseStages(Rec.Z, Stages(T.a, S.h, S.u, Rec.F), "1E6", Roundings(T.a, S.h, S.u, Rec.F)), "S03", "coefficients are not those of the step")
                  ELSE {})
  /\ F' = l /\ iter' = Rec.q + 1
  /\ UNCHANGED <<u, carry, old, poly, Y, same, pc, ok, exact, started, big, steps>>

\* Accept or Fail
TraceOut ==
  /\ IsRec("out") /\ Go /\ pc = "iterate" /\ pc' = "idle" /\ ok' = Rec.ok
  /\ LET S == Recs[u]
         I == Recs[F]
         good == AllNum(I.Y) /\ AllNum(I.F) /\ VIsNum(S.u)
         W == Stages(T.a, S.h, S.u, I.F)
         R == Roundings(T.a, S.h, S.u, I.F)
         inc == Increment(T.b, S.h, I.F)
         size == Add(NormInf(S.u), NormInf(AbsComb(Coefs(S.h, T.b), I.F)))
         most == Max2(big, size)
     IN /\ bad' = bad
             \union Must(iter = S.m /\ ~I.next, "ALL", "broken record")
             \union Must(S.m <= New.itermax, "S01", "more iterations than allowed")
             \union Must(Rec.iter = S.m, "S01", "number of iterations reported")
             \union Must(Rec.same <= 2, "S01", "iterations which change nothing do not end")
             \union (IF Rec.ok
                     THEN Must(good, "S01", "success without values")
                          \union (IF good THEN
                               Must(CloseStages(I.Y, W, s + 8, R), "S01", "the Gauss equations are not satisfied")
                               \union Must(VNear(Rec.v, VAdd(S.u, inc), Tol(s + 8, most)), "S01", "solution after a success")
                               \union Must(VNear(Rec.v, VAdd(S.u, inc), Tol("1E6", most)), "S03", "the increment is not that of the step")
                               \union Must(Le(Rec.diff, "1E-290"), "S01", "residual reported at success")
                               ELSE {})
                     ELSE Must(VSame(Rec.v, S.u) \/ ~VIsNum(S.u), "S01", "a failure changes the solution")
                          \union Must(VSame(Rec.v, S.u) \/ ~VIsNum(S.u), "S04", "a failure changes the solution")
                          \union Must(S.m = New.itermax, "S01", "a failure before the last iteration")
                          \union (IF good /\ IsNum(Rec.diff)
                                  THEN LET d == [i \in 1 .. s |-> VSub(W[i], I.Y[i])]
                                           sum == VSum([i \in 1 .. s |-> Dot(d[i], d[i])])
                                       IN Must(Lt(0, sum) \/ Lt(0, Rec.diff), "S01", "a failure with no difference")
                                          \union Must(Lt(sum, Mul("1E-4", PowI(NormInf(R), 2))) \/ Close(sum, Rec.diff, "1E-9"), "S01", "residual reported")
                                  ELSE {}))
        /\ big' = IF Rec.ok /\ good THEN Str(most) ELSE big
        /\ poly' = IF Rec.ok THEN [known |-> TRUE, at |-> u, it |-> F] ELSE [known |-> FALSE]
  /\ UNCHANGED <<u, carry, old, Y, F, iter, same, exact, started, steps>>

\* a whole step, in a long integration: the exact sum
TraceFar ==
  /\ IsRec("far") /\ Go /\ pc = "idle"
  /\ LET begin == IF exact = << >> THEN Rec.u ELSE exact
         good == AllNum(Rec.F) /\ VIsNum(Rec.v) /\ VIsNum(Rec.u)
         inc == Increment(T.b, Rec.h, Rec.F)
         sum == IF Rec.ok /\ good THEN VAdd(begin, inc) ELSE begin
         size == IF good THEN NormInf(AbsComb(Coefs(Rec.h, T.b), Rec.F)) ELSE 0
         k == IF Rec.ok THEN steps + 1 ELSE steps
         most == IF Rec.ok /\ good THEN Max2(big, size) ELSE big
     IN /\ exact' = StrV(sum) /\ steps' = k /\ big' = Str(most)
        /\ bad' = bad
             \union (IF Rec.ok /\ good
                     THEN Must(VNear(Rec.v, sum, Add(Tol(2, Max2(NormInf(Rec.u), NormInf(Rec.v))), Tol(k * (s + 4), most))), "S04", "the accumulated rounding error is not bounded")
                     ELSE Must(VSame(Rec.v, Rec.u), "S04", "a failure changes the solution"))
  /\ old' = Rec.h
  /\ UNCHANGED <<u, carry, poly, Y, F, iter, same, pc, ok, started>>

\* Change
TraceReset ==
  /\ IsRec("reset") /\ Go /\ pc = "idle"
  /\ poly' = [known |-> FALSE] /\ exact' = << >> /\ steps' = 0
  /\ UNCHANGED <<u, carry, old, Y, F, iter, same, pc, ok, started, big, bad>>

Known == \/ pc = "none" /\ Rec.e = "new" /\ l = 1
         \/ pc = "idle" /\ Rec.e \in {"step", "far", "reset"}
         \/ pc = "iterate" /\ Rec.e \in {"it", "out"}
TraceOther ==
  /\ l <= Len(Recs) /\ ~Known /\ Go
  /\ bad' = bad \union {<<"ALL", "crash or hang">>}
  /\ UNCHANGED <<u, carry, old, poly, Y, F, iter, same, pc, ok, exact, started, big, steps>>

Finished == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceNew \/ TraceStep \/ TraceIt \/ TraceOut \/ TraceFar \/ TraceReset \/ TraceOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {}
=============================================================================
