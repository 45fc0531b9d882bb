----------------------------- MODULE Rock4Trace -----------------------------
(***************************************************************************)
(* Executions of Rock4 recorded from the right-hand side object, checked   *)
(* against module Rock4 (control) and the definition of the method.        *)
(*                                                                         *)
(* Each record of a trace is one action.  What the specification predicts  *)
(* is compared with what was recorded; a difference adds a label to bad    *)
(* and the state goes on from what was recorded.                           *)
(*                                                                         *)
(* The last unknown of the problems is a clock (its derivative is one), so *)
(* that the times of the evaluations are seen; the step and the degree of  *)
(* an attempt ("prep" records) are deduced from them.                      *)
(***************************************************************************)
EXTENDS TraceLib, Rock4Coef

Mu == [q \in 1 .. Len(Tables) |-> MuOf(Tables[q])]
T2 == [q \in 1 .. Len(Tables) |-> T2Of(Tables[q])]
Fin == [q \in 1 .. Len(Tables) |-> FinOf(Tables[q])]
Ew == [q \in 1 .. Len(Tables) |-> ErrWeights(Tables[q])]

RealNearEnd(s, r) == Le(r, Mul("1.01", s))
RealTooSmall(s) == Lt(s, "1E-15")
RealStages(s, r) == LET k == Floor(Add(Sqrt(Div(Add(3, Mul(s, r)), "0.353")), 1)) IN IF Lt(k, 5) THEN 5 ELSE k
RealLimit(r) == Div(Mul("0.8", Sub(Mul(Mul(152, 152), "0.353"), 3)), r)
RealDegree(s) == Tables[CHOOSE q \in 1 .. Len(Tables) : Le(s, Tables[q].d + 4) /\ (q = 1 \/ Lt(Tables[q - 1].d + 4, s))].d

VARIABLES pc, t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds
INSTANCE Rock4 WITH NearEnd <- RealNearEnd, TooSmall <- RealTooSmall, Stages <- RealStages, MaxStages <- 152,
                    LimitStep <- RealLimit, DegreeFor <- RealDegree, AskEvery <- 10
VARIABLES tr, l,
          ls,          \* position of the last "start" record
          hlo, hhi,    \* bounds of the step proposed by the control law
          ycur, fcur,  \* solution and F(solution)
          hlast,       \* last accepted step
          hsum,        \* sum of the accepted steps
          bad
tvars == <<pc, t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds,
           tr, l, ls, hlo, hhi, ycur, fcur, hlast, hsum, bad>>
control == <<pc, t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>
extra == <<ls, hlo, hhi, ycur, fcur, hlast, hsum>>

Recs == Traces[tr]
Rec == Recs[l]
St == Recs[ls]
N == St.n
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr
HasNext == l + 1 <= Len(Recs)
Nxt == Recs[l + 1]
KeepControl == UNCHANGED control

TraceInit ==
  /\ tr \in 1 .. Len(Traces)
  /\ l = 1 /\ ls = 1 /\ hlo = 0 /\ hhi = 0 /\ ycur = << >> /\ fcur = << >> /\ hlast = 0 /\ hsum = 0 /\ bad = {}
  /\ InitVars(<<0, 0>>, [b \in {0} |-> <<"work">>])

\* equal up to rounding: times are seen through the clock
HEps(b, base) == Add(Mul("1E-8", Abs(b)), Mul(100, Ulp(Add(Abs(base), Abs(b)))))
HClose(obs, lo, hi, base) ==
  LET a == Min2(lo, hi)
      b == Max2(lo, hi)
      eps == HEps(b, base)
  IN Le(Sub(a, eps), obs) /\ Le(obs, Add(b, eps))

Put(f, b, v) == [x \in DOMAIN f \cup {b} |-> IF x = b THEN v ELSE f[x]]
\* what the buffers hold when the only known ones are those of o
Held(o, v) == Put(Put([b \in {o[1]} |-> <<"work">>], o[1], <<"y", v>>), o[2], <<"f", v>>)

TraceStart ==
  /\ IsRec("start")
  /\ Go
  /\ IF HasNext /\ Nxt.e = "F0"
     THEN Start(Rec.t, Rec.tend, Rec.h, <<Nxt.in, Nxt.out>>, Held(<<Nxt.in, Nxt.out>>, 0))
     ELSE UNCHANGED control
  /\ ls' = l /\ hlo' = Rec.h /\ hhi' = Rec.h /\ ycur' = Rec.y /\ fcur' = << >> /\ hlast' = 0 /\ hsum' = 0
  /\ bad' = bad \union Must(HasNext /\ Nxt.e \in {"F0", "crash", "cut", "stopped"}, "ALL", "begins without an evaluation of F")

TraceF0 ==
  /\ IsRec("F0")
  /\ Go /\ KeepControl
  /\ fcur' = Rec.r /\ UNCHANGED <<ls, hlo, hhi, ycur, hlast, hsum>>
  /\ bad' = bad \union Must(VSame(Rec.y, St.y) /\ Rec.in = St.id /\ Rec.out # Rec.in, "K01", "does not start from the initial value")
                \union Must(Rec.in = St.id /\ Rec.out # Rec.in, "K02", "buffers at the start")

TraceAsk ==
  /\ IsRec("R")
  /\ Go /\ UNCHANGED extra
  /\ IF ENABLED Ask(Rec.rho) THEN Ask(Rec.rho) /\ bad' = bad
     ELSE \* the step is seen up to rounding
          /\ rho' = Rec.rho /\ fresh' = TRUE /\ since' = 0
          /\ UNCHANGED <<pc, t, tend, h, deg, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>
          /\ bad' = bad \union Must(pc = "ready", "K01", "goes on after the end")

\* the step and the degree used, from the bounds of the proposal
\* (no sets of numbers: they cannot be compared with one another)
Neighbours(a) == <<Mul(a, Sub(1, "1E-9")), a, Mul(a, Add(1, "1E-9"))>>
TracePrep ==
  /\ IsRec("prep")
  /\ Go /\ UNCHANGED extra
  /\ \E J \in {LET ho == Rec.h
         known == IsNum(hlo) /\ IsNum(hhi)
         ulo == Used(hlo, rho)
         uhi == Used(hhi, rho)
         wlo == Wanted(hlo)
         whi == Wanted(hhi)
         \* between the bounds unless limited
         stepOk == \/ HClose(ho, ulo, uhi, Rec.base)
                   \/ ~Eq(ulo, uhi) /\ \E i \in 1 .. 6 : LET s == (Neighbours(ulo) \o Neighbours(uhi))[i] IN HClose(ho, Used(s, rho), Used(s, rho), Rec.base)
                   \/ (HClose(ho, wlo, whi, Rec.base) /\ \E i \in 1 .. 3 : RealStages(Neighbours(ho)[i], rho) <= 152)
                   \/ \E i \in 1 .. 2 : LET s == <<Mul(hlo, Sub(1, "1E-7")), Mul(hhi, Add(1, "1E-7"))>>[i] IN HClose(ho, Used(s, rho), Used(s, rho), Rec.base)
         hh == IF known /\ HClose(ho, h, h, Rec.base) /\ Eq(Used(h, rho), h) THEN h ELSE Str(ho)
         rel == Add("1E-9", Div(HEps(ho, Rec.base), ho))
         ss == <<RealStages(Mul(hh, Sub(1, rel)), rho), RealStages(hh, rho), RealStages(Mul(hh, Add(1, rel)), rho)>>
         degOk == \/ \E i \in 1 .. 3 : ~Lt(152, ss[i]) /\ Rec.d = RealDegree(ss[i])
                  \/ Rec.d = 148 /\ HClose(ho, RealLimit(rho), RealLimit(rho), Rec.base)
         enough == \E i \in 1 .. 3 : Le(ss[i], Rec.d + 4)
         small == known /\ Lt(Wanted(Max2(hlo, hhi)), "0.99E-15")
      IN [hh |-> hh, rhoOk |-> IsNum(rho) /\ Le(0, rho) /\ RhoOk,
          labels |->
             (IF known /\ Le(0, rho) THEN Must(stepOk, "K04", "step differs from the control law")
                             \union Must(stepOk \/ Lt(ho, whi), "K01", "last step") ELSE {})
             \union Must(~known \/ Le(Sub(ho, Rest), HEps(ho, Rec.base)), "K01", "goes beyond the end")
             \union Must(Lt(0, ho), "K01", "wrong direction")
             \union Must(pc = "ready", "K01", "goes on after the end")
             \union Must(~small, "K04", "a step which is too small is not refused")
             \union Must(Le(0, rho) /\ RhoOk, "K03", "the spectral radius is not recent")
             \union (IF Le(0, rho) THEN Must(enough, "K03", "not enough stages") \union Must(degOk, "K03", "another degree than the smallest which suffices") ELSE {})
             \union Must(Near(Rec.base, Str(hsum), Mul(10, HEps(ho, Rec.base))), "K01", "step does not start where the previous one ended")
             \union (IF pc = "ready" /\ rejected THEN Must(~Rec.go, "K02", "starts from elsewhere after a rejected attempt") ELSE {})] } :
     /\ bad' = bad \union J.labels
     /\ IF pc = "ready" /\ J.rhoOk /\ ~RealTooSmall(Wanted(h)) THEN Prepare(J.hh, Rec.d)
        ELSE /\ pc' = "try" /\ h' = J.hh /\ deg' = Rec.d /\ nst' = IF Rec.d + 4 > nst THEN Rec.d + 4 ELSE nst
             /\ UNCHANGED <<t, tend, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, own, holds>>

----------------------------------------------------------------------------
\* The method: arguments of the evaluations of an attempt, each from what was
\* recorded before it
Coefs(q, k, d) ==   \* terms of argument k: y, the two previous arguments, ...
  <<Mu[q][k], T2[q][k]>>
Args(q, d, hh, K) ==
  LET rr(j) == IF j = 0 THEN fcur ELSE K[j].r
      yy(j) == IF j = 0 THEN ycur ELSE K[j].y
      arg(k) ==
        IF k <= d
        THEN IF k = 1 THEN <<<<1, Mul(hh, Mu[q][1])>>, <<yy(0), rr(0)>>>>
             ELSE <<<<T2[q][k], Sub(1, T2[q][k]), Mul(hh, Mu[q][k])>>, <<yy(k - 1), yy(k - 2), rr(k - 1)>>>>
        ELSE LET i == k - d
             IN <<[j \in 1 .. i + 1 |-> IF j = 1 THEN 1 ELSE Mul(hh, Fin[q][i][j - 1])],
                  [j \in 1 .. i + 1 |-> IF j = 1 THEN yy(d) ELSE rr(d + j - 2)]>>
  IN [k \in 1 .. d + 4 |-> LET a == arg(k) IN <<LinComb(a[1], a[2]), NormInf(AbsComb(a[1], a[2]))>>]

\* what is checked about the buffers of an attempt
BuffersOk(K, m) ==
  /\ \A k \in 1 .. m : K[k].in # K[k].out
  /\ \A k \in 1 .. m : K[k].out # own[1] /\ K[k].out # own[2]
  /\ K[m].in # own[1] /\ K[m].in # own[2]

\* control law
Safe(e) == Mul("0.8", e)
Limit(f) == Min2(facmax, Max2("0.1", f))
\* factor for the error e (previous accepted error ep, 0 if none)
Factor(e, ep, hh) ==
  IF ~IsNum(e) THEN "0.1"
  ELSE IF Eq(e, 0) THEN facmax
  ELSE LET f0 == Div(1, Root4(e))
           f1 == Mul(Mul(Root4(ep), Mul(f0, f0)), Div(hh, hp))
           f == IF nacc > 0 /\ ~rejected /\ Lt(0, ep) THEN Min2(f0, f1) ELSE f0
       IN Max2("0.1", Safe(f))
Capped(f) == Min2(IF rejected THEN 1 ELSE facmax, f)
HnewAccepted(hh, e, ep) ==
  LET a == Mul(hh, Capped(Factor(e, ep, hh))) IN IF rejected THEN Min2(a, hh) ELSE a
HnewRejected(hh, e, ep) == Mul("0.8", Mul(hh, Capped(Factor(e, ep, hh))))

Judge ==
  LET d == Rec.d
      m == d + 4
      K == Rec.k
      q == IndexOf(d)
      hh == h
      ho == Rec.h
      A == Args(q, d, hh, K)
      rel == Add("1E-11", Div(HEps(0, hsum), hh))
      yn == K[m].y
      argsOk(k) == VIsNum(A[k][1]) => VNear(K[k].y, A[k][1], Mul(rel, A[k][2]))
      \* the error estimate, from what was recorded
      ec == [j \in 1 .. 5 |-> Mul(hh, Ew[q][j])]
      ev == [j \in 1 .. 5 |-> K[m - 5 + j].r]
      est == Vec(LinComb(ec, ev))
      scale == Vec([i \in 1 .. N |-> Add(St.atol, Mul(St.rtol, Abs(yn[i])))])
      e == Wrms(est, scale)
      noise == Add(Mul(Add("1E-12", Mul(10, Div(HEps(0, hsum), hh))), e), Mul("1E-12", Wrms(Vec(AbsComb(ec, ev)), scale)))
      known == IsNum(e) /\ IsNum(noise)
      elo == IF Lt(e, noise) THEN 0 ELSE Sub(e, noise)
      ehi == Add(e, noise)
      \* is the value not a number, or infinite?
      canAcc == known /\ Lt(elo, "1.0000000001")
      canRej == ~known \/ Lt("0.9999999999", ehi)
      after == IF HasNext /\ Nxt.e = "R" THEN (IF l + 2 <= Len(Recs) THEN Recs[l + 2] ELSE [e |-> "none"])
               ELSE IF HasNext THEN Nxt ELSE [e |-> "none"]
      \* (at the end, the solution given back)
      acc == CASE after.e = "prep" -> after.go
               [] after.e = "end" -> IF after.exc = 0 THEN TRUE ELSE after.id = K[m].in
               [] OTHER -> canAcc
      \* (the limit when the error goes to zero is not the law for a null error)
      epl == IF Eq(errp[1], 0) /\ Lt(0, errp[2]) THEN "1E-280" ELSE errp[1]
      wlo == IF acc THEN HnewAccepted(hh, ehi, epl) ELSE HnewRejected(hh, ehi, epl)
      whi == IF acc THEN HnewAccepted(hh, elo, errp[2]) ELSE HnewRejected(hh, elo, errp[2])
      lo0 == IF known THEN wlo ELSE (IF acc THEN "nan" ELSE HnewRejected(hh, "nan", 0))
      hi0 == IF known THEN whi ELSE lo0
      \* after ten rejections the step may be limited (documented in the code only)
      capped == ~acc /\ stuck >= 8 /\ stuck <= 11
      \* the last step is stretched a little more after an acceptance
      stretch(s) == LET r == Sub(tend, Add(t, hh)) IN IF acc /\ Le(r, Mul("1.1", s)) THEN r ELSE s
      lo == stretch(IF capped THEN Min2(lo0, "1E-5") ELSE lo0)
      hi == stretch(hi0)
      hsn == IF acc THEN Add(hsum, hh) ELSE hsum
      reached == LET r == Sub(tend, Add(t, hh)) IN Le(r, Add(HEps(hh, hsum), Mul(4, Ulp(tend))))
      tn == IF ~acc THEN t
            ELSE IF reached /\ after.e \in {"end", "none", "cut"} THEN tend
            ELSE Add(t, hh)
      hn == IF after.e = "prep" THEN Str(after.h) ELSE Str(hi)
      \* with equal bounds the step used next is exactly known
      labels ==
        UNION {Must(argsOk(k), "K05", "arguments of the stages") : k \in 1 .. m}
        \union Must(argsOk(1) /\ argsOk(2), "K02", "does not start from the present solution and its derivative")
        \union Must(BuffersOk(K, m), "K02", "a buffer in use is written")
        \union (IF acc THEN Must(canAcc, "K04", "step accepted although its error is not below one")
                ELSE Must(canRej, "K04", "step rejected although its error is below one"))
        \union (IF after.e = "end" /\ after.exc = 0
                THEN Must(VSame(after.y, yn), "K01", "the result is not the last solution")
                     \union Must(after.id = K[m].in, "K02", "the result is not in the buffer of the last solution")
                ELSE {})
        \union (IF ~acc /\ after.e = "prep" THEN Must(Lt(after.h, ho), "K04", "the retry is not with a smaller step") ELSE {})
  IN [labels |-> labels, acc |-> acc, lo |-> Str(lo), hi |-> Str(hi), tn |-> Str(tn), hn |-> hn, hsn |-> Str(hsn),
      e |-> <<Str(elo), Str(ehi)>>,
      o |-> <<K[m].in, K[m].out>>,
      dbg |-> IF labels # {} /\ Prop = "ANY"
              THEN PrintT(<<"DBG", tr, l, labels, "h", h, ho, "e", Str(elo), Str(ehi), "acc", acc, after.e,
                            [k \in {k \in 1 .. m : ~argsOk(k)} |-> <<k, StrV(A[k][1]), K[k].y, Str(A[k][2])>>]>>) ELSE TRUE]

TraceTry ==
  /\ IsRec("try")
  /\ Go
  /\ \E J \in {Judge} :
       /\ bad' = bad \union J.labels
       /\ hlo' = J.lo /\ hhi' = J.hi /\ hsum' = J.hsn
       /\ ls' = ls
       /\ IF J.acc
          THEN /\ Accept(J.tn, J.hn, J.e, J.o, Held(J.o, nacc + 1))
               /\ ycur' = Rec.k[Rec.d + 4].y /\ fcur' = Rec.k[Rec.d + 4].r /\ hlast' = h
          ELSE /\ Reject(J.hn, holds)
               /\ UNCHANGED <<ycur, fcur, hlast>>

TraceEnd ==
  /\ IsRec("end")
  /\ Go /\ UNCHANGED extra
  /\ LET empty == ~Lt(St.t, St.tend)
         counters ==
           Must(Rec.nsteps = nsteps, "K07", "number of steps")
           \union Must(Rec.nacc = nacc, "K07", "number of accepted steps")
           \union Must(Rec.nrej = nrej, "K07", "number of rejected steps")
           \union Must(Rec.nf = nf, "K07", "number of evaluations of F")
           \union Must(Rec.nst = nst, "K07", "number of stages")
           \union Must(Rec.size = N, "K07", "number of unknowns")
           \union Must(nacc > 0 => HClose(Rec.hlast, hlast, hlast, hsum), "K07", "last accepted step")
         here == VSame(Rec.y, ycur)
         small == \E i \in 1 .. 4 : LET s == <<hlo, hhi, Mul(hlo, "0.99"), h>>[i] IN ~IsNum(s) \/ Le(Wanted(s), "1.01E-15")
         normal ==
           Must(pc = "done" \/ Near(hsum, Sub(St.tend, St.t), Mul(20, HEps(hlast, Max2(Abs(St.tend), Abs(St.t))))), "K01", "returns before the end")
           \union Must(empty => nsteps = 0, "K01", "empty interval")
         exc == Must(pc = "ready" /\ small, "K04", "exception without a reason")
                \union Must(pc = "ready" /\ small, "K01", "exception without a reason")
     IN bad' = bad \union (IF pc = "lost" THEN {} ELSE
                 counters \union (IF Rec.exc = 0 THEN normal ELSE exc)
                 \union Must(here, "K01", "the result is not the last solution")
                 \union Must(here /\ Rec.id = own[1], "K02", "the result is not in the buffer of the last solution"))
  /\ IF Rec.exc = 1 /\ ENABLED GiveUp THEN GiveUp
     ELSE /\ pc' = IF Rec.exc = 0 THEN "done" ELSE "exc"
          /\ UNCHANGED <<t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>

\* a call which is not recorded, then the same on a new object
TraceAgain ==
  /\ IsRec("again")
  /\ Go /\ KeepControl /\ UNCHANGED <<extra, bad>>
TraceTwin ==
  /\ IsRec("twin")
  /\ Go /\ KeepControl /\ UNCHANGED extra
  /\ LET a == Recs[l - 1] IN
     bad' = bad \union Must(
       /\ a.exc = Rec.exc /\ a.hash = Rec.hash /\ VSame(a.y, Rec.y)
       /\ a.nsteps = Rec.nsteps /\ a.nacc = Rec.nacc /\ a.nrej = Rec.nrej /\ a.nf = Rec.nf
       /\ a.nst = Rec.nst /\ VSame(<<a.hlast>>, <<Rec.hlast>>), "K07", "a reused object differs from a new one")

TraceOther ==
  /\ l <= Len(Recs) /\ Rec.e \in {"owner", "cut", "stopped", "blur", "crash", "shape"}
  /\ Go /\ KeepControl /\ UNCHANGED extra
  /\ bad' = bad \union CASE Rec.e = "owner" -> Must(Rec.intact, "K02", "the user's vector does not belong to him")
                         [] Rec.e \in {"cut", "blur"} -> {}
                         [] Rec.e = "stopped" -> If(St.never, "K04", "does not terminate")
                         [] Rec.e = "crash" -> {<<"ALL", "crash or hang">>}
                         [] OTHER -> {<<"ALL", "calls which are not those of the method">>}

Done == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceStart \/ TraceF0 \/ TraceAsk \/ TracePrep \/ TraceTry \/ TraceEnd \/ TraceAgain \/ TraceTwin \/ TraceOther \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Conforms == Enforced(bad) = {} /\ (Prop = "K02" => pc = "lost" \/ Owned) /\ (Prop = "K03" => RecentRho)
=============================================================================
