----------------------------- MODULE RodasTrace -----------------------------
(***************************************************************************)
(* Executions of Rodas recorded from the right-hand side object, checked   *)
(* against module Rodas (control) and the definition of the method.        *)
(*                                                                         *)
(* Each record of a trace is one action.  What the specification predicts  *)
(* is compared with what was recorded; a difference adds a label to bad    *)
(* (with the property concerned) and the state goes on from what was       *)
(* recorded, so that one defect is not reported for everything after it.   *)
(***************************************************************************)
EXTENDS TraceLib, RodasCoef

RealStretch(a) == Mul(a, "1.0001")
RealTooSmall(a, b) == Le(Mul("0.1", Abs(a)), Mul(Abs(b), "1E-16"))
RealDefault(a) == IF Lt(Abs(a), "1E-15") THEN "1E-6" ELSE a
RealSlack(a) == Mul(2, Ulp(a))

VARIABLES pc, x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt
INSTANCE Rodas WITH Stretch <- RealStretch, TooSmall <- RealTooSmall, DefaultStep <- RealDefault, Slack <- RealSlack
VARIABLES tr, l,      \* trace and position in it
          ls, lb,     \* positions of the last "start" and "begin" records
          hlo, hhi,   \* bounds of the step proposed by the control law
          first,      \* first accepted step
          bad
tvars == <<pc, x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt,
           tr, l, ls, lb, hlo, hhi, first, bad>>

Recs == Traces[tr]
Rec == Recs[l]
St == Recs[ls]
Bg == Recs[lb]

NullOpt == [nmax |-> 0, one |-> FALSE, gus |-> TRUE, safe |-> "0.9", span |-> 0, dir |-> 1]
TraceInit ==
  /\ tr \in 1 .. Len(Traces)
  /\ l = 1 /\ ls = 1 /\ lb = 1 /\ hlo = 0 /\ hhi = 0 /\ first = 0 /\ bad = {}
  /\ InitVars(NullOpt)

----------------------------------------------------------------------------
\* The method

N == St.n
Base == Bg.y            \* solution at the beginning of the step
Cf == Coef[St.meth]
Delta(v) == Sqrt(Mul("1E-16", Max2("1E-5", Abs(v))))
\* Jacobian in use, rows
JacOf(b) == IF St.numj
            THEN [i \in 1 .. N |-> [j \in 1 .. N |->
                     IF i - j <= St.nsub /\ j - i <= St.nsup
                     THEN Div(Sub(b.cols[j].r[i], b.f[i]), Delta(b.y[j])) ELSE 0]]
            ELSE b.J[1].J
FxOf(b) == IF St.auton THEN Zeros(N)
           ELSE IF St.dft THEN b.ft[1].r
           ELSE VScale(Div(1, Delta(b.t)), VSub(b.ft[1].r, b.f))
ShiftedJac(J, c) == [i \in 1 .. N |-> [j \in 1 .. N |-> IF i = j THEN Sub(c, J[i][j]) ELSE Opp(J[i][j])]]

\* relative tolerance of the comparisons: rounding of the linear algebra (cd is
\* the condition number), and the step is only known up to the rounding of x+h
Rel(hh, xx, cd) == Add(Add("1E-10", Mul(cd, "1E-13")), Mul(200, Div(Ulp(Add(Abs(xx), Abs(hh))), Abs(hh))))
RelFine(hh, xx, cd) == Add(Add("1E-12", Mul(cd, "1E-14")), Mul(20, Div(Ulp(Add(Abs(xx), Abs(hh))), Abs(hh))))

\* One attempt with step hh and the recorded values s[1..5].r of F.
\* Result: stage vectors u[1..6], arguments of F arg[2..6], new solution, and
\* their magnitudes (for rounding)
Stages(hh, s, J, Fx) ==
  LET M == Mat(ShiftedJac(J, Div(1, Mul(hh, Cf.gamma))))
      Hd(i) == IF St.auton THEN 0 ELSE Mul(hh, Cf.d[i])
      Ch(i) == [j \in 1 .. i - 1 |-> Div(Cf.c[i][j], hh)]
      Solve(f, i, us) ==
        LinSolve(M, IF i = 1 THEN VAxpy(Hd(1), Fx, f)
                    ELSE VAdd(VAxpy(Hd(i), Fx, f), LinComb(Ch(i), us)))
      Arg(i, us) == VAdd(Base, LinComb(Cf.a[i], us))
      u1 == Solve(Bg.f, 1, << >>)
      a2 == Arg(2, <<u1>>)
      u2 == Solve(s[1].r, 2, <<u1>>)
      a3 == Arg(3, <<u1, u2>>)
      u3 == Solve(s[2].r, 3, <<u1, u2>>)
      a4 == Arg(4, <<u1, u2, u3>>)
      u4 == Solve(s[3].r, 4, <<u1, u2, u3>>)
      a5 == Arg(5, <<u1, u2, u3, u4>>)
      u5 == Solve(s[4].r, 5, <<u1, u2, u3, u4>>)
      a6 == VAdd(a5, u5)
      u6 == Solve(s[5].r, 6, <<u1, u2, u3, u4, u5>>)
      \* magnitude of what was summed
      mg(i, us) == NormInf(VAdd(VAbs(Base), AbsComb(Cf.a[i], us)))
      c5 == Append(Cf.a[5], 1)
      m6 == NormInf(VAdd(VAbs(Base), AbsComb(c5, <<u1, u2, u3, u4, u5>>)))
      \* rounding of a difference quotient in time
      fq == IF St.auton \/ St.dft THEN 0
            ELSE Mul(Mul(Mul(hh, hh), "4E-15"), Div(NormInf(Bg.f), Delta(Bg.t)))
      rhs6 == Add(NormInf(s[5].r), NormInf(AbsComb(Ch(6), <<u1, u2, u3, u4, u5>>)))
  IN [arg |-> <<a2, a3, a4, a5, a6>>,
      mag |-> <<mg(2, <<u1>>), mg(3, <<u1, u2>>), mg(4, <<u1, u2, u3>>), mg(5, <<u1, u2, u3, u4>>), m6>>,
      ynew |-> VAdd(a6, u6), err |-> u6, cond |-> Cond(M), fq |-> fq,
      \* magnitude of the terms which cancel in u6
      emag |-> Mul(Mul(Abs(hh), Cf.gamma), rhs6)]

\* scaled norm of the error, with its uncertainty
Scale(yn) == [i \in 1 .. N |-> Add(St.atol[i], Mul(St.rtol[i], Max2(Abs(Base[i]), Abs(yn[i]))))]
ErrNoise(sg, q, hh, xx) == Wrms([i \in 1 .. N |-> Add(sg.fq, Mul(RelFine(hh, xx, sg.cond), sg.emag))], q)

\* the control law: new step from step hh with error e
Ratio(v) == Max2(Div(1, 6), Min2(5, v))
Fac(e) == Ratio(Div(Root4(e), opt.safe))
FacGus(hh, e, ea, ha) == Ratio(Div(Mul(Div(ha, hh), Sqrt(Sqrt(Div(Mul(e, e), ea)))), opt.safe))
HnewAccepted(hh, e, ea, na, ha) ==
  LET f == IF opt.gus /\ na >= 1 THEN Max2(Fac(e), FacGus(hh, e, ea, ha)) ELSE Fac(e)
      h1 == Min2(Abs(Div(hh, f)), opt.span)
      h2 == IF rejected THEN Min2(h1, Abs(hh)) ELSE h1
  IN Mul(opt.dir, h2)
HnewRejected(hh, e) == Div(hh, Fac(e))
ErrAcc(e) == Max2("1E-2", e)

\* a number recorded or predicted twice: equal up to rounding
HClose(obs, lo, hi, xx) ==
  LET a == Min2(Abs(lo), Abs(hi))
      b == Max2(Abs(lo), Abs(hi))
      eps == Add(Mul("1E-9", b), Mul(3, Ulp(Add(Abs(xx), b))))
  IN /\ Le(Sub(a, eps), Abs(obs)) /\ Le(Abs(obs), Add(b, eps))
     /\ (Lt(eps, a) => Sgn(obs) = Sgn(lo))

----------------------------------------------------------------------------
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr
Nxt == Recs[l + 1]      \* every record but the last kind of records has a successor
KeepControl == UNCHANGED <<pc, x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>

TraceStart ==
  /\ IsRec("start")
  /\ IF pc \in {"idle", "done", "exc"}
     THEN Start(Rec.x, Rec.xend, Rec.h,
           [nmax |-> Rec.nmax, one |-> Rec.one, gus |-> Rec.gus, safe |-> Rec.safe,
            span |-> Str(Abs(Sub(Rec.xend, Rec.x))), dir |-> IF Lt(Rec.xend, Rec.x) THEN -1 ELSE 1])
     ELSE KeepControl
  /\ hlo' = h' /\ hhi' = h'
  /\ ls' = l /\ lb' = l /\ first' = 0
  /\ bad' = bad
  /\ Go

\* evaluations made at the beginning of a step: all at the current point
Jacs(b) ==
  LET col(j) == LET w == Add(b.y[j], Delta(b.y[j]))
                    c == b.cols[j]
                IN /\ Eq(c.t, b.t)
                   /\ \A i \in 1 .. N : i # j => Eq(c.y[i], b.y[i])
                   /\ Near(c.y[j], w, Add(Mul(2, Ulp(w)), Mul("1E-9", Delta(b.y[j]))))
  IN /\ St.numj => Len(b.cols) = N /\ \A j \in 1 .. N : col(j)
     /\ ~St.numj => /\ Eq(b.J[1].t, b.t) /\ VSame(b.J[1].y, b.y) /\ VSame(b.J[1].f, b.f)
     /\ ~St.auton => LET f == b.ft[1] IN
          /\ VSame(f.y, b.y)
          /\ IF St.dft THEN Eq(f.t, b.t)
             ELSE LET w == Add(b.t, Delta(b.t)) IN Near(f.t, w, Add(Mul(2, Ulp(w)), Mul("1E-9", Delta(b.t))))

TraceBegin ==
  /\ IsRec("begin")
  /\ Go /\ lb' = l /\ UNCHANGED <<ls, hlo, hhi, first>>
  /\ LET chk == Must(Jacs(Rec), "D04", "Jacobian or time derivative not at the current point")
                \union Must(Le(0, Mul(opt.dir, Sub(xend, Rec.t))), "D01", "evaluation beyond the end")
         start == Must(Eq(Rec.t, x) /\ (naccpt = 0 => VSame(Rec.y, St.y)), "D01", "step does not start where the previous one ended")
     IN IF pc = "step" /\ ~RealTooSmall(h, x)
        THEN BeginStep /\ bad' = bad \union chk \union start
        ELSE /\ pc' = "try" /\ x' = Rec.t /\ njac' = njac + 1
             /\ h' = (IF Nxt.e = "try" THEN Str(Sub(Nxt.s[5].t, Rec.t)) ELSE h)
             /\ UNCHANGED <<xend, y, last, rejected, nstep, naccpt, nrejct, ndec, hacc, erracc, opt>>
             /\ bad' = bad \union chk \union
                  CASE pc = "step" -> {<<"D05", "a negligible step is not refused">>}
                    [] pc = "done" -> {<<"D01", "goes on after the end">>}
                    [] OTHER -> {<<"ALL", "unexpected step">>}

\* the proposal from which the next step recorded comes: the specification does
\* not see it, but sees the step used (ho), within the bounds lo, hi
Proposal(ho, xn, lo, hi) ==
  LET rest == Sub(xend, xn) IN
  IF ~IsNum(ho) THEN Str(lo)
  ELSE IF Near(ho, rest, Mul(4, Ulp(Max2(Abs(xn), Abs(xend))))) THEN Str(IF RealTooSmall(rest, xn) THEN hi ELSE rest)
  ELSE Str(ho)

\* what is predicted and observed for the attempt at l, and what is wrong
Judge ==
  LET ho == Sub(Rec.s[5].t, x)
      hh == IF HClose(ho, h, h, x) THEN h ELSE Str(ho)
      S == Stages(hh, Rec.s, Mat(JacOf(Bg)), Vec(FxOf(Bg)))
      rel == Rel(hh, x, S.cond)
      q == Vec(Scale(S.ynew))
      e == Wrms(S.err, q)
      \* Where the stages amplify rounding errors (the arguments recorded tell it),
      \* what a change of the step within its own rounding does to them is added
      \* to the tolerances.
      fine == \A k \in 1 .. 5 : VIsNum(S.arg[k]) => VNear(Rec.s[k].y, S.arg[k], Add(S.fq, Mul(RelFine(hh, x, S.cond), S.mag[k])))
      known0 == IsNum(hh) /\ VIsNum(S.err) /\ VIsNum(S.ynew)
      T == Stages(Add(hh, Add(Mul(2, Ulp(Add(Abs(x), Abs(hh)))), Mul("1E-15", Abs(hh)))), Rec.s, Mat(JacOf(Bg)), Vec(FxOf(Bg)))
      \* the same for the rounding of a difference quotient in time
      V == IF St.auton \/ St.dft THEN S
           ELSE Stages(hh, Rec.s, Mat(JacOf(Bg)), Vec(VAdd(FxOf(Bg), VScale(Div("2.5E-16", Delta(Bg.t)), VAdd(VAbs(Bg.f), VAbs(Bg.ft[1].r))))))
      Off(A, B, k) == LET d == CASE k < 6 -> VSub(A.arg[k], B.arg[k])
                                 [] k = 6 -> VSub(A.ynew, B.ynew)
                                 [] OTHER -> VSub(A.err, B.err)
                      IN IF VIsNum(d) THEN Mul(4, NormInf(d)) ELSE 0
      sens == IF fine \/ ~known0 THEN <<0, 0, 0, 0, 0, 0, 0>>
              ELSE [k \in 1 .. 7 |-> Str(Add(Off(T, S, k), Off(V, S, k)))]
      en == Add(ErrNoise(S, q, hh, x), IF Eq(sens[7], 0) THEN 0 ELSE Wrms([i \in 1 .. N |-> sens[7]], q))
      elo == IF Lt(e, en) THEN 0 ELSE Sub(e, en)
      ehi == Add(e, en)
      known == IsNum(e)
      canAcc == Le(elo, "1.000000001")
      canRej == ~Le(ehi, "0.999999999")
      same == Eq(Nxt.x, x) /\ VSame(Nxt.y, Base)    \* (end records only)
      acc == CASE Nxt.e = "begin" -> TRUE
               [] Nxt.e = "try" -> FALSE
               [] OTHER -> Nxt.exc = 0 \/ ~canRej \/ (canAcc /\ ~same)
      xn == IF Nxt.e = "begin" THEN Nxt.t ELSE IF Nxt.e = "end" THEN Nxt.x ELSE x
      moved == Le(Span(xn, Rec.s[5].t), RealSlack(xn))
      ynOk == VIsNum(S.ynew) => VNear(Nxt.y, S.ynew, Add(Add(S.fq, sens[6]), Mul(rel, S.mag[5])))
      \* steps the law allows next
      ealo == IF naccpt = 0 THEN 1 ELSE erracc[1]
      eahi == IF naccpt = 0 THEN 1 ELSE erracc[2]
      lo == IF acc THEN HnewAccepted(hh, ehi, ealo, naccpt, hacc) ELSE HnewRejected(hh, ehi)
      hi == IF acc THEN HnewAccepted(hh, elo, eahi, naccpt, hacc) ELSE HnewRejected(hh, elo)
      nlo == IF known THEN Str(lo) ELSE "nan"
      nhi == IF known THEN Str(hi) ELSE "nan"
      hn == IF acc /\ Nxt.e = "begin" /\ l + 2 <= Len(Recs) /\ Recs[l + 2].e = "try"
            THEN Proposal(Sub(Recs[l + 2].s[5].t, xn), xn, nlo, nhi)
            ELSE IF ~acc /\ Nxt.e = "try" THEN Str(Sub(Nxt.s[5].t, x)) ELSE nlo
      wlo == IF rejected THEN hlo ELSE StepUsed(x, xend, hlo)
      whi == IF rejected THEN hhi ELSE StepUsed(x, xend, hhi)
      stepOk == IF IsNum(hlo) THEN HClose(ho, wlo, whi, x) ELSE TRUE
      timesOk == \A k \in 1 .. 5 : Near(Rec.s[k].t, Add(x, Mul(Cf.alpha[k + 1], hh)), Add(Mul(3, Ulp(Add(Abs(x), Abs(hh)))), Mul("1E-9", Abs(hh))))
      argsOk == \A k \in 1 .. 5 : VIsNum(S.arg[k]) => VNear(Rec.s[k].y, S.arg[k], Add(Add(S.fq, sens[k]), Mul(rel, S.mag[k])))
      labels ==
        Must(stepOk, "D03", "step differs from the control law")
        \union Must(IsNum(hlo) => Lt(0, Mul(opt.dir, ho)), "D01", "wrong direction")
        \union Must(IsNum(ho) => \A k \in 1 .. 5 : Le(Opp(RealSlack(xend)), Mul(opt.dir, Sub(xend, Rec.s[k].t))), "D01", "evaluation beyond the end")
        \union Must(nstep <= opt.nmax, "D05", "more attempts than the limit")
        \union (IF IsNum(hh) THEN
                  Must(timesOk, "D04", "stage times") \union
                  Must(argsOk, "D04", "arguments of the stages") \union
                  Must(rejected => argsOk, "D02", "retry from another point")
                ELSE {})
        \union (IF acc
           THEN Must(canAcc, "D02", "step accepted although its error is above one")
                \union (IF Nxt.e = "end" /\ Nxt.exc = 1
                        THEN Must(moved /\ ynOk, "D05", "time and solution at the exception")
                        ELSE Must(moved, "D01", "time after an accepted step")
                             \union Must(ynOk, "D01", "solution after an accepted step")
                             \union Must(ynOk, "D04", "new solution"))
           ELSE Must(canRej, "D02", "step rejected although its error is below one")
                \union (IF Nxt.e = "end" THEN Must(same, "D05", "time and solution at the exception") ELSE {})
                \union (IF Nxt.e = "try" /\ IsNum(ho)
                        THEN Must(~IsNum(Nxt.s[5].t) \/ Lt(Abs(Sub(Nxt.s[5].t, x)), Abs(ho)), "D02", "the retry is not with a smaller step")
                        ELSE {}))
  IN [labels |-> labels, nlo |-> nlo, nhi |-> nhi, acc |-> acc, xn |-> xn, hn |-> hn, hh |-> hh,
      ealo |-> Str(ErrAcc(elo)), eahi |-> Str(ErrAcc(ehi)),
      dbg |-> IF labels # {} /\ Prop = "ANY"
              THEN PrintT(<<"DBG", tr, l, labels, "h", h, Str(ho), "want", Str(wlo), Str(whi), "err", Str(elo), Str(ehi),
                            "cond", Str(S.cond), Str(rel), Base,
                            [k \in 1 .. 5 |-> <<StrV(S.arg[k]), Rec.s[k].y, Str(S.mag[k])>>]>>) ELSE TRUE]

TraceTry ==
  /\ IsRec("try")
  /\ Go /\ UNCHANGED <<ls, lb>>
  /\ IF pc # "try"
     THEN /\ KeepControl /\ UNCHANGED <<hlo, hhi, first>>
          /\ bad' = bad \union {IF pc = "done" THEN <<"D01", "goes on after the end">> ELSE <<"ALL", "unexpected attempt">>}
     ELSE IF Nxt.e \notin {"begin", "try", "end"}
     THEN KeepControl /\ UNCHANGED <<hlo, hhi, first, bad>>
     ELSE
       \E A \in {Judge} :
          /\ bad' = bad \union A.labels
          /\ hlo' = A.nlo /\ hhi' = A.nhi
          /\ first' = IF A.acc /\ naccpt = 0 THEN A.hh ELSE first
          /\ IF A.acc
             THEN \/ nstep <= opt.nmax /\ Accept(A.xn, A.hn, <<A.ealo, A.eahi>>)
                  \/ nstep > opt.nmax /\ pc' = "step" /\ x' = A.xn /\ h' = A.hn /\ nstep' = nstep + 1
                     /\ UNCHANGED <<xend, y, last, rejected, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>
             ELSE \/ nstep <= opt.nmax /\ Reject(A.hn)
                  \/ nstep > opt.nmax /\ h' = A.hn /\ nstep' = nstep + 1
                     /\ UNCHANGED <<pc, x, xend, y, last, rejected, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>

\* the factorisation may also refuse a matrix which contains NaN
NanJac == pc = "try" /\ (\E i \in 1 .. N : ~VIsNum(JacOf(Bg)[i]) \/ ~IsNum(h))

TraceEnd ==
  /\ IsRec("end")
  /\ Go /\ UNCHANGED <<ls, lb, hlo, hhi, first>>
  /\ LET empty == Eq(St.x, St.xend)
         counters ==
           Must(Rec.nstep = nstep, "D05", "number of steps")
           \union Must(Rec.naccpt = naccpt, "D05", "number of accepted steps")
           \union Must(Rec.nrejct = nrejct, "D05", "number of rejected steps")
           \union Must(Rec.njac = njac, "D05", "number of Jacobians")
           \union Must(Rec.ndec = ndec, "D05", "number of factorisations")
           \union Must(naccpt > 0 => HClose(Rec.first, first, first, St.x), "D05", "first accepted step")
         normal ==
           Must(pc = "done", "D01", "returns before the end")
           \union Must(opt.one \/ Le(Span(Rec.x, xend), RealSlack(xend)), "D01", "returns at another time")
           \union (IF empty THEN Must(Eq(Rec.x, St.x) /\ VSame(Rec.y, St.y) /\ naccpt = 0, "D01", "empty interval") ELSE {})
           \union (IF ~empty /\ naccpt > 0 /\ IsNum(hlo) THEN Must(HClose(Rec.hlast, hlo, hhi, St.x), "D03", "last proposed step") ELSE {})
         exc ==
           LET reason == (pc = "step" /\ RealTooSmall(h, x)) \/ (pc = "try" /\ nstep > opt.nmax) \/ NanJac
           IN Must(reason, "D05", "exception without a reason") \union Must(reason, "D01", "exception without a reason")
           \union (IF naccpt = 0 THEN Must(Eq(Rec.x, St.x) /\ VSame(Rec.y, St.y), "D05", "time and solution at the exception")
                   ELSE Must(Eq(Rec.x, x), "D05", "time at the exception"))
           \union (IF lb > ls /\ pc = "try" THEN Must(VSame(Rec.y, Base), "D05", "solution at the exception") ELSE {})
     IN bad' = bad \union counters \union (IF Rec.exc = 0 THEN normal ELSE exc)
  /\ IF Rec.exc = 1 /\ ENABLED GiveUp THEN GiveUp
     ELSE /\ pc' = IF Rec.exc = 0 THEN "done" ELSE "exc"
          /\ UNCHANGED <<x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>

\* a call which is not recorded, then the same on a new object
TraceAgain ==
  /\ IsRec("again")
  /\ Go /\ KeepControl /\ UNCHANGED <<ls, lb, hlo, hhi, first, bad>>
TraceTwin ==
  /\ IsRec("twin")
  /\ Go /\ KeepControl /\ UNCHANGED <<ls, lb, hlo, hhi, first>>
  /\ LET a == Recs[l - 1] IN
     bad' = bad \union Must(
       /\ a.exc = Rec.exc /\ a.hash = Rec.hash /\ VSame(<<a.x>>, <<Rec.x>>) /\ VSame(a.y, Rec.y)
       /\ a.nstep = Rec.nstep /\ a.naccpt = Rec.naccpt /\ a.nrejct = Rec.nrejct /\ a.njac = Rec.njac
       /\ a.ndec = Rec.ndec /\ VSame(<<a.first>>, <<Rec.first>>), "D05", "a reused object differs from a new one")

TraceOther ==
  /\ l <= Len(Recs) /\ Rec.e \in {"cut", "stopped", "crash", "shape"}
  /\ Go /\ KeepControl /\ UNCHANGED <<ls, lb, hlo, hhi, first>>
  /\ bad' = bad \union CASE Rec.e = "cut" -> {}
                         [] Rec.e = "stopped" -> {<<"D05", "does not terminate">>}
                         [] Rec.e = "crash" -> {<<"ALL", "crash or hang">>}
                         [] OTHER -> {<<"ALL", "calls which are not those of the method">>}

Done == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceStart \/ TraceBegin \/ TraceTry \/ TraceEnd \/ TraceAgain \/ TraceTwin \/ TraceOther \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* what the property requires; the invariants of the control hold in real executions too
Conforms == Enforced(bad) = {} /\ (Prop = "D01" => Inside)
ASSUME OrderConditions
=============================================================================
