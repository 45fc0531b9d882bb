----------------------------- MODULE RadauTrace -----------------------------
(***************************************************************************)
(* Executions of Radau5 recorded from the right-hand side object, checked  *)
(* against module Radau (control) and the definition of the method.        *)
(*                                                                         *)
(* records: start, begin (F, perhaps Jacobian, at the current point), att  *)
(* (one attempt: Newton iterations of three evaluations, perhaps one more  *)
(* for the error estimate, perhaps the Jacobian for the retry), end, twin. *)
(* Quantities which decide a branch are intervals (rounding): where both   *)
(* branches are possible the recorded one is followed.                     *)
(***************************************************************************)
EXTENDS TraceLib, RadauCoef

RealStretch(a) == Mul(a, "1.0001")
RealArrived(a, b) == Le(Mul("0.1", Abs(Sub(b, a))), Mul(Abs(a), "1E-16"))
RealDefault(a) == IF Lt(Abs(a), "1E-15") THEN "1E-6" ELSE a
RealSlack(a) == Add(Mul(2, Ulp(a)), Mul("1.1E-15", Abs(a)))

VARIABLES pc, x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt
RealTiny(a) == Mul("0.01", Ulp(a))
INSTANCE Radau WITH Tiny <- RealTiny, Stretch <- RealStretch, Arrived <- RealArrived, DefaultStep <- RealDefault, Slack <- RealSlack
VARIABLES tr, l,        \* trace and position in it
          ls, lb,       \* positions of the last "start" and "begin" records
          lj, ljb,      \* positions of the record with the Jacobian in use, of the begin record of its point
          hlo, hhi,     \* bounds of the step of the next attempt
          fac, th,      \* bounds of Newton's factor faccon, of the last convergence rate
          zp, hold,     \* last accepted stages (minus the solution; their rounding error in fourth place) and step
          hop,          \* bounds of the step proposed at the end
          first, nf, newt,
          amb,          \* how many factorisations and rejections cannot be told
          bad
tvars == <<pc, x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt,
           tr, l, ls, lb, lj, ljb, hlo, hhi, fac, th, zp, hold, hop, first, nf, newt, amb, bad>>

Recs == Traces[tr]
Rec == Recs[l]
Nxt == Recs[l + 1]      \* every trace ends with a record which has no successor to look at
St == Recs[ls]
Bg == Recs[lb]

NullOpt == [nmax |-> 0, one |-> FALSE, gus |-> TRUE, safe |-> "0.9", span |-> 0, dir |-> 1]
TraceInit ==
  /\ tr \in 1 .. Len(Traces)
  /\ l = 1 /\ ls = 1 /\ lb = 1 /\ lj = 1 /\ ljb = 1 /\ hlo = 0 /\ hhi = 0
  /\ fac = <<1, 1>> /\ th = <<0, 0>> /\ zp = << >> /\ hold = 0 /\ hop = <<0, 0>>
  /\ first = 0 /\ nf = 0 /\ newt = 0 /\ amb = <<0, 0>> /\ bad = {}
  /\ InitVars(NullOpt)

----------------------------------------------------------------------------
\* The problem and its Jacobian

N == St.n
Base == Bg.y
Delta(v) == Sqrt(Mul("1E-16", Max2("1E-5", Abs(v))))
HasJac(r) == IF St.numj THEN Len(r.cols) > 0 ELSE Len(r.J) > 0
\* Jacobian of record r computed at the point of the begin record b, rows
JacOf(r, b) ==
  IF St.numj
  THEN [i \in 1 .. N |-> [j \in 1 .. N |->
          IF i - j <= St.nsub /\ j - i <= St.nsup
          THEN Div(Sub(r.cols[j].r[i], b.f[i]), Delta(b.y[j])) ELSE 0]]
  ELSE r.J[1].J
\* it was evaluated where it should have been
JacAt(r, b) ==
  IF St.numj
  THEN /\ Len(r.cols) = N
       /\ \A j \in 1 .. N :
            LET w == Add(b.y[j], Delta(b.y[j]))
                c == r.cols[j]
            IN /\ Eq(c.t, b.t)
               /\ \A i \in 1 .. N : i # j => Eq(c.y[i], b.y[i])
               /\ Near(c.y[j], w, Add(Mul(2, Ulp(w)), Mul("1E-9", Delta(b.y[j]))))
  ELSE Eq(r.J[1].t, b.t) /\ VSame(r.J[1].y, b.y) /\ VSame(r.J[1].f, b.f)

\* tolerances of the code, from those of the user
Expm == Div(2, 3)
RtolC == [i \in 1 .. N |-> Mul("0.1", Pow(St.rtol[i], Expm))]
AtolC == [i \in 1 .. N |-> Div(Mul(RtolC[i], St.atol[i]), St.rtol[i])]
Scal == [i \in 1 .. N |-> Add(AtolC[i], Mul(RtolC[i], Abs(Base[i])))]
Fnewt == IF IsNum(St.fnewt) THEN St.fnewt
         ELSE Max2(Div("1E-15", RtolC[1]), Min2("0.03", Sqrt(RtolC[1])))

Rel(hh, xx, cd) == Add(Add("1E-10", Mul(cd, "1E-13")), Mul(200, Div(Ulp(Add(Abs(xx), Abs(hh))), Abs(hh))))
RelFine(hh, xx, cd) == Add(Add("3E-12", Mul(cd, "1E-13")), Mul(20, Div(Ulp(Add(Abs(xx), Abs(hh))), Abs(hh))))
One == "1.000000001"     \* slack of the comparisons which decide
Under == "0.999999999"

\* ---- Newton's iteration ----------------------------------------------------
\* matrix I - h A (x) J
NewtonMatrix(hh, J) ==
  [p \in 1 .. 3 * N |-> [q \in 1 .. 3 * N |->
     LET i == ((p - 1) \div N) + 1
         j == ((q - 1) \div N) + 1
         a == Mul(Mul(hh, AR[i][j]), J[((p - 1) % N) + 1][((q - 1) % N) + 1])
     IN IF p = q THEN Sub(1, a) ELSE Opp(a)]]
Cut3(v) == <<SubSeq(v, 1, N), SubSeq(v, N + 1, 2 * N), SubSeq(v, 2 * N + 1, 3 * N)>>
Flat(z) == z[1] \o z[2] \o z[3]

\* starting values: the collocation polynomial of the previous step, which has
\* the values -z3, z1-z3, z2-z3, 0 (with respect to the solution reached) at
\* 0, c1, c2, 1, extrapolated
StartZ(hh) ==
  IF naccpt = 0 THEN <<Zeros(N), Zeros(N), Zeros(N)>>
  ELSE LET nd == <<0, CR[1], CR[2], 1>>
           vals == <<VScale(-1, zp[3]), VSub(zp[1], zp[3]), VSub(zp[2], zp[3]), Zeros(N)>>
           at(i) == Add(1, Mul(CR[i], Div(hh, hold)))
           lag(k, s) == LET f(m) == IF m = k THEN 1 ELSE Div(Sub(s, nd[m]), Sub(nd[k], nd[m]))
                        IN Mul(Mul(f(1), f(2)), Mul(f(3), f(4)))
       IN [i \in 1 .. 3 |-> Vec(LinComb([k \in 1 .. 4 |-> lag(k, at(i))], vals))]
\* rounding error of the accepted stages, amplified by the extrapolation
StartErr(hh) ==
  IF naccpt = 0 THEN 0
  ELSE LET r == Max2(1, Div(Abs(hh), Abs(hold))) IN Mul(Mul(20, PowI(r, 3)), zp[4])

\* One iteration: k its number, it the evaluations, z the current iterate, s what
\* is remembered.  dy: norm of the increment, as an interval.
Min0(a) == IF Lt(a, 0) THEN 0 ELSE a
OneIter(k, it, s, hh, M, cd, q3, fn) ==
  LET F3 == <<it[1].r, it[2].r, it[3].r>>
      HF == [i \in 1 .. 3 |-> VScale(hh, LinComb(AR[i], F3))]
      DZ == Cut3(LinSolve(M, VSub(Flat(HF), Flat(s.z))))
      W == [i \in 1 .. 3 |-> LinComb(TI[i], DZ)]
      d == Wrms(Flat(W), q3)
      mag == Add(Mul(Abs(hh), NormInf(Flat(F3))), NormInf(Flat(s.z)))
      en == Wrms([i \in 1 .. 3 * N |-> Add(Mul(Mul(5, RelFine(hh, x, cd)), mag), Mul("2E-15", NormInf(Base)))], q3)
      dl == Min0(Sub(d, en))
      dh == Add(d, en)
      tested == k > 1 /\ k < St.nit
      ql == Div(dl, s.dh)
      qh == Div(dh, s.dl)
      tl == IF ~tested THEN s.tl ELSE IF k = 2 THEN ql ELSE Sqrt(Mul(ql, s.ql))
      tu == IF ~tested THEN s.tu ELSE IF k = 2 THEN qh ELSE Sqrt(Mul(qh, s.qh))
      can99 == IF tested THEN Lt(tl, "0.990000001") ELSE TRUE
      not99 == IF tested THEN ~Lt(tu, "0.989999999") ELSE FALSE
      tc == IF Lt(tu, "0.99") THEN tu ELSE "0.99"
      tb == IF Lt(tl, "0.99") THEN tl ELSE "0.99"
      fl == IF tested /\ can99 THEN Div(tb, Sub(1, tb)) ELSE s.fl
      fu == IF tested /\ can99 THEN Div(tc, Sub(1, tc)) ELSE s.fu
      \* (the factor is not changed when the rate is not below 0.99)
      flo == IF not99 THEN Min2(fl, s.fl) ELSE fl
      fuo == IF not99 THEN Max2(fu, s.fu) ELSE fu
      m == St.nit - 1 - k
      dyl == Div(Mul(Mul(fl, dl), PowI(tb, m)), fn)
      dyu == Div(Mul(Mul(fu, dh), PowI(tc, m)), fn)
      will == tested /\ can99 /\ ~Le(dyu, Under)
      ok == can99 /\ (tested => ~Lt(One, dyl))
      num == IsNum(d)
      conv == num /\ ok /\ Lt(Mul(fl, dl), Mul(fn, One))
      open == ok /\ ~Lt(Mul(fu, dh), Mul(fn, Under))
      ex == Div(-1, 4 + m)
      cl(v) == Max2(1, Min2(20, v))
      half == (tested /\ (not99 \/ ~num)) \/ (k = St.nit /\ open)
      slow == will /\ num
      rl == IF slow THEN Mul("0.8", Pow(cl(dyu), ex)) ELSE "0.5"
      ru == IF slow THEN Mul("0.8", Pow(cl(dyl), ex)) ELSE "0.5"
  IN [z |-> [i \in 1 .. 3 |-> Vec(VAdd(s.z[i], DZ[i]))], num |-> num, ze |-> 0,
      dl |-> Max2(Str(dl), "1E-16"), dh |-> Max2(Str(dh), "1E-16"),
      ql |-> Str(ql), qh |-> Str(qh), tl |-> Str(tl), tu |-> Str(tu), fl |-> Str(flo), fu |-> Str(fuo),
      conv |-> conv,
      cont |-> (k < St.nit /\ (IF num THEN open ELSE ~tested)),
      fail |-> half \/ slow,
      rl |-> Str(IF half THEN Min2(rl, "0.5") ELSE rl), ru |-> Str(IF half THEN Max2(ru, "0.5") ELSE ru),
      mag |-> Str(mag)]

\* all the iterations of the attempt; labels in lab
RECURSIVE Iterate(_, _, _, _, _, _, _, _)
Iterate(k, its, s, hh, M, cd, q3, fn) ==
  LET it == its[k]
      rel == Rel(hh, x, cd)
      argOk(i) == VIsNum(s.z[i]) =>
                    VNear(it[i].y, VAdd(Base, s.z[i]),
                          Mul(rel, Add(NormInf(Base), Add(Add(NormInf(s.z[i]), s.mag), Div(s.ze, rel)))))
      \* the iterate is read in the arguments when they are the expected ones
      \* (so that rounding errors do not accumulate in the predictions)
      fine == \A i \in 1 .. 3 : VIsNum(s.z[i]) /\ argOk(i)
      so == IF fine THEN [s EXCEPT !.z = [i \in 1 .. 3 |-> Vec(VSub(it[i].y, Base))]] ELSE s
      s1 == OneIter(k, it, so, hh, M, cd, q3, fn)
      timeOk(i) == Near(it[i].t, Add(x, Mul(CR[i], hh)), Add(Mul(3, Ulp(Add(Abs(x), Abs(hh)))), Mul("1E-9", Abs(hh))))
      lab == s.lab
        \union (IF k > St.nit THEN {<<"R03", "more Newton iterations than the limit">>} ELSE {})
        \union Must(\A i \in 1 .. 3 : timeOk(i), "R04", "times of the stages")
        \union (IF \A i \in 1 .. 3 : argOk(i) THEN {}
                ELSE IF k = 1 THEN {<<"R04", "starting values of Newton's iteration">>}
                                   \union (IF rejected THEN {<<"R02", "retry from another point">>} ELSE {})
                ELSE {<<"R04", "iterate is not that of the simplified Newton method">>})
        \union (IF k < Len(its) /\ ~s1.cont
                THEN {<<"R03", "Newton's iteration goes on after it has converged or failed">>} ELSE {})
      s2 == [s1 EXCEPT !.num = @] @@ [lab |-> lab]
  IN IF k = Len(its) THEN s2 ELSE Iterate(k + 1, its, s2, hh, M, cd, q3, fn)

\* ---- error estimate and the control law -----------------------------------
Quot(e, nw) == LET fc == Min2(opt.safe, Div(Mul(opt.safe, 1 + 2 * St.nit), nw + 2 * St.nit))
               IN Max2(opt.facr, Min2(opt.facl, Div(Root4(e), fc)))
QuotGus(hh, e, ea, ha) ==
  Max2(opt.facr, Min2(opt.facl, Div(Mul(Div(ha, hh), Sqrt(Sqrt(Div(Mul(e, e), ea)))), opt.safe)))
\* proposal after an accepted step (naccpt steps were accepted before it)
HnewAccepted(hh, e, nw, ea, ha, lim) ==
  LET q == IF opt.gus /\ naccpt >= 1 THEN Max2(Quot(e, nw), QuotGus(hh, e, ea, ha)) ELSE Quot(e, nw)
      h1 == Min2(Abs(Div(hh, q)), opt.span)
  IN Mul(opt.dir, IF lim THEN Min2(h1, Abs(hh)) ELSE h1)
HnewRejected(hh, e, nw) == IF naccpt = 0 THEN Mul(hh, "0.1") ELSE Div(hh, Quot(e, nw))

HClose(obs, lo, hi, xx) ==
  LET a == Min2(Abs(lo), Abs(hi))
      b == Max2(Abs(lo), Abs(hi))
      eps == Add(Mul("1E-9", b), Mul(4, Ulp(Add(Abs(xx), b))))
  IN /\ Le(Sub(a, eps), Abs(obs)) /\ Le(Abs(obs), Add(b, eps))
     /\ (Lt(eps, a) => Sgn(obs) = Sgn(lo))

----------------------------------------------------------------------------
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr
KeepControl == UNCHANGED <<pc, x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt>>
Lost == /\ pc' = "lost"
        /\ UNCHANGED <<x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt>>
KeepNewton == UNCHANGED <<fac, th, zp, hold>>
StepOf(r) == Sub(r.it[1][3].t, x)

TraceStart ==
  /\ IsRec("start")
  /\ LET o == [nmax |-> Rec.nmax, one |-> Rec.one, gus |-> Rec.gus, safe |-> Rec.safe, facr |-> Rec.facr, facl |-> Rec.facl,
               span |-> Str(Abs(Sub(Rec.xend, Rec.x))), dir |-> IF Lt(Rec.xend, Rec.x) THEN -1 ELSE 1]
     IN IF pc \in {"idle", "done", "exc"} THEN Start(Rec.x, Rec.xend, Rec.h, o)
        ELSE /\ pc' = IF Eq(Rec.x, Rec.xend) THEN "done" ELSE "point"
             /\ x' = Rec.x /\ xend' = Rec.xend /\ opt' = o /\ h' = RealDefault(Rec.h)
             /\ last' = FALSE /\ rejected' = FALSE
             /\ nstep' = 0 /\ naccpt' = 0 /\ nrejct' = 0 /\ njac' = 0 /\ ndec' = 0
             /\ jac' = -1 /\ fact' = << >> /\ hopt' = Rec.h
             /\ UNCHANGED <<y, hacc, erracc>>
  /\ hlo' = "nan" /\ hhi' = "nan"
  /\ fac' = <<1, 1>> /\ th' = <<0, 0>> /\ zp' = << >> /\ hold' = 0 /\ hop' = <<Rec.h, Rec.h>>
  /\ ls' = l /\ lb' = l /\ lj' = l /\ ljb' = l /\ first' = 0 /\ nf' = 0 /\ newt' = 0 /\ amb' = <<0, 0>>
  /\ bad' = bad
  /\ Go

\* evaluation at the current point
JudgeBegin ==
  LET newj == HasJac(Rec)
      tlt == St.thet
      mustj == naccpt = 0 \/ Lt(Mul(tlt, One), th[1])
      mayj == naccpt = 0 \/ ~Le(th[2], Mul(tlt, Under))
      \* the step of the attempt which follows
      obs == IF Nxt.e = "att" THEN StepOf(Nxt) ELSE h
      known == IsNum(hlo) /\ IsNum(hhi)
      ho == IF fact = << >> THEN 0 ELSE fact[1]
      qa == Div(hlo, ho)
      qb == Div(hhi, ho)
      ql == Min2(qa, qb)
      qh == Max2(qa, qb)
      reaches(v) == IF naccpt = 0 THEN ReachesFirst(x, xend, Clamped(v)) ELSE ReachesNext(x, xend, Clamped(v))
      used(v) == IF reaches(v) THEN Sub(xend, x) ELSE Clamped(v)
      canKeep == naccpt > 0 /\ ~newj /\ known /\ ~(reaches(hlo) /\ reaches(hhi))
                 /\ ~Lt(Mul(tlt, One), th[1]) /\ Le(Under, qh) /\ Le(ql, Mul("1.2", One))
      mustKeep == canKeep /\ ~reaches(hlo) /\ ~reaches(hhi) /\ Le(th[2], Mul(tlt, Under))
                  /\ Lt(One, ql) /\ Lt(qh, Mul("1.2", Under))
      same == HClose(obs, ho, ho, x)
      kept == canKeep /\ (mustKeep \/ same) /\ (Nxt.e = "att" => same)
      \* the old step and the remaining interval may be the same number
      keep == kept /\ ~reaches(h)
      labels ==
        Must(newj => JacAt(Rec, Rec), "R04", "Jacobian not at the current point")
        \union Must(mustj => newj, "R04", "Jacobian not recomputed although convergence was slow")
        \union Must(newj => mayj, "R04", "Jacobian recomputed although convergence was fast")
        \union Must(Eq(Rec.t, x) /\ (naccpt = 0 => VSame(Rec.y, St.y)), "R01", "step does not start where the previous one ended")
        \union Must(Le(0, Add(RealSlack(xend), Mul(opt.dir, Sub(xend, Rec.t)))), "R01", "evaluation beyond the end")
        \union Must(mustKeep /\ Nxt.e = "att" => same, "R03", "the old step is not kept")
      lo == IF naccpt = 0 THEN used(h) ELSE IF keep THEN ho ELSE used(hlo)
      hi == IF naccpt = 0 THEN used(h) ELSE IF keep THEN ho ELSE used(hhi)
  IN [labels |-> labels, newj |-> newj, keep |-> keep, amb |-> IF kept /\ ~keep THEN 1 ELSE 0, lo |-> Str(lo), hi |-> Str(hi)]

TraceBegin ==
  /\ IsRec("begin")
  /\ Go /\ lb' = l /\ UNCHANGED <<ls, first, newt>> /\ KeepNewton
  /\ nf' = nf + 1 + Len(Rec.cols)
  /\ IF pc = "lost" THEN KeepControl /\ UNCHANGED <<lj, ljb, hlo, hhi, hop, amb, bad>>
     ELSE IF pc # "point"
     THEN /\ Lost /\ UNCHANGED <<lj, ljb, hlo, hhi, hop, amb>>
          /\ bad' = bad \union {IF pc = "done" THEN <<IF opt.one THEN "R07" ELSE "R01", "goes on after the end">> ELSE <<"ALL", "unexpected step">>}
     ELSE \E B \in {JudgeBegin} :
          /\ lj' = (IF B.newj THEN l ELSE lj) /\ ljb' = (IF B.newj THEN l ELSE ljb)
          /\ hlo' = B.lo /\ hhi' = B.hi
          /\ hop' = (IF naccpt = 0 THEN <<B.lo, B.hi>> ELSE hop)
          /\ bad' = bad \union B.labels /\ amb' = <<amb[1] + B.amb, amb[2]>>
          /\ IF naccpt = 0 /\ ~B.newj THEN Lost ELSE Begin(B.newj, B.keep)

\* one attempt
Proposal(ho, xn, lo) ==
  LET rest == Sub(xend, xn) IN
  IF ~IsNum(ho) THEN Str(lo)
  ELSE IF Near(ho, rest, Mul(4, Ulp(Max2(Abs(xn), Abs(xend))))) THEN Str(rest)
  ELSE Str(ho)

NumJac == \A i \in 1 .. N : VIsNum(JacOf(Recs[lj], Recs[ljb])[i])
Judge ==
  LET ho == StepOf(Rec)
      hh == IF HClose(ho, h, h, x) THEN h ELSE Str(ho)
      J == Mat(JacOf(Recs[lj], Recs[ljb]))
      M == Mat(NewtonMatrix(hh, J))
      cd == IF IsNum(Cond(M)) THEN Str(Cond(M)) ELSE "1"
      q == Vec(Scal)
      fn == Str(Fnewt)
      f0l == Pow(Max2(fac[1], "1E-16"), "0.8")
      f0u == Pow(Max2(fac[2], "1E-16"), "0.8")
      Z0 == StartZ(hh)
      s0 == [z |-> Z0, num |-> TRUE, dl |-> 0, dh |-> 0, ql |-> 0, qh |-> 0, tl |-> Str(Abs(St.thet)), tu |-> Str(Abs(St.thet)),
             fl |-> Str(Mul(f0l, Under)), fu |-> Str(Mul(f0u, One)), conv |-> FALSE, cont |-> TRUE, fail |-> FALSE, rl |-> 0, ru |-> 0,
             mag |-> Str(NormInf(Flat(Z0))), ze |-> Str(StartErr(hh)), lab |-> {}]
      R == Iterate(1, Rec.it, s0, hh, M, cd, q \o q \o q, fn)
      nw == Len(Rec.it)
      rel == Rel(hh, x, cd)
      hasEst == Len(Rec.est) > 0
      \* error estimate
      M1 == Mat([i \in 1 .. N |-> [j \in 1 .. N |-> IF i = j THEN Sub(Div(U1, hh), J[i][j]) ELSE Opp(J[i][j])]])
      F2 == VScale(Div(1, hh), LinComb(DD, R.z))
      e1 == LinSolve(M1, VAdd(F2, Bg.f))
      amp1 == Mul(Div(Abs(hh), U1), Add(NormInf(VAbs(Bg.f)), NormInf(VScale(Div(1, hh), AbsComb(DD, R.z)))))
      amp == IF hasEst THEN Add(amp1, Mul(Div(Abs(hh), U1), NormInf(Rec.est[1].r))) ELSE amp1
      noise(a) == Wrms([i \in 1 .. N |-> Add(Mul(RelFine(hh, x, cd), a), Mul("4E-15", NormInf(Base)))], q)
      en1 == noise(amp1)
      en == noise(amp)
      v1 == Wrms(e1, q)
      ex1 == IF hasEst THEN Wrms(LinSolve(M1, VAdd(F2, Rec.est[1].r)), q) ELSE v1
      floor(v) == IF IsNum(v) THEN Max2("1E-10", v) ELSE v
      v1l == floor(Sub(v1, en1))
      v1h == floor(Add(v1, en1))
      el == Str(floor(Sub(ex1, en)))
      eh == Str(floor(Add(ex1, en)))
      numErr == IsNum(ex1)
      second == naccpt = 0 \/ rejected
      mayEst == second /\ ~Lt(v1h, Under)      \* (infinite: filtered again; not a number: not)
      mayNoEst == ~second \/ Lt(v1l, One) \/ ~IsNum(v1)
      errBelow == numErr /\ Lt(el, One)
      errAbove == ~numErr \/ ~Lt(eh, Under)
      \* what happened
      acc == IF Nxt.e = "begin" THEN TRUE ELSE IF Nxt.e = "end" THEN Nxt.exc = 0 ELSE FALSE
      obsNext == IF Nxt.e = "att" THEN StepOf(Nxt) ELSE "nan"
      canRej == R.conv /\ errAbove /\ (IF hasEst THEN mayEst ELSE mayNoEst)
      canFail == R.fail /\ ~hasEst
      flo == Str(Mul(hh, R.rl))
      fhi == Str(Mul(hh, R.ru))
      rlo == Str(HnewRejected(hh, eh, nw))
      rhi == Str(HnewRejected(hh, el, nw))
      \* (a NaN error is reduced as much as possible)
      rl2 == IF numErr THEN rlo ELSE IF naccpt = 0 THEN Str(Mul(hh, "0.1")) ELSE Str(Div(hh, opt.facl))
      rh2 == IF numErr THEN rhi ELSE rl2
      kind == IF acc THEN "acc"
              ELSE IF canFail /\ canRej THEN (IF IsNum(obsNext) /\ HClose(obsNext, flo, fhi, x) THEN "fail" ELSE "rej")
              ELSE IF canFail THEN "fail" ELSE IF canRej THEN "rej"
              ELSE IF R.fail THEN "fail" ELSE "rej"
      same == Nxt.e = "end" => Eq(Nxt.x, x) /\ VSame(Nxt.y, Base)
      xn == IF Nxt.e = "begin" THEN Nxt.t ELSE IF Nxt.e = "end" THEN Nxt.x ELSE x
      moved == Le(Span(xn, Rec.it[1][3].t), Mul(2, Ulp(xn)))
      ynew == VAdd(Base, R.z[3])
      ynOk == VIsNum(ynew) => VNear(Nxt.y, ynew, Mul(rel, Add(NormInf(Base), Add(NormInf(R.z[3]), R.mag))))
      ealo == IF naccpt = 0 THEN 1 ELSE erracc[1]
      eahi == IF naccpt = 0 THEN 1 ELSE erracc[2]
      lo == IF kind = "acc" THEN Str(HnewAccepted(hh, eh, nw, ealo, hacc, rejected))
            ELSE IF kind = "fail" THEN flo ELSE rl2
      hi == IF kind = "acc" THEN Str(HnewAccepted(hh, el, nw, eahi, hacc, rejected))
            ELSE IF kind = "fail" THEN fhi ELSE rh2
      nlo == IF IsNum(lo) /\ IsNum(hi) THEN lo ELSE "nan"
      nhi == IF IsNum(lo) /\ IsNum(hi) THEN hi ELSE "nan"
      hn == IF kind = "acc" /\ Nxt.e = "begin" /\ l + 2 <= Len(Recs) /\ Recs[l + 2].e = "att"
            THEN Proposal(Sub(Recs[l + 2].it[1][3].t, xn), xn, nlo)
            ELSE IF kind # "acc" /\ Nxt.e = "att" THEN Str(obsNext) ELSE nlo
      reJac == HasJac(Rec)
      stepOk == IF IsNum(hlo) THEN HClose(ho, hlo, hhi, x) ELSE TRUE
      dirn == opt.dir
      labels ==
        Must(stepOk, "R03", "step differs from the control law")
        \union Must(stepOk \/ ls = 1, "R07", "step differs from the control law in a later integration")
        \union Must(IsNum(hlo) => Lt(0, Mul(dirn, ho)), "R01", "wrong direction")
        \union Must(IsNum(ho) => \A k \in 1 .. nw : \A i \in 1 .. 3 :
                       Le(Opp(RealSlack(xend)), Mul(dirn, Sub(xend, Rec.it[k][i].t))), "R01", "evaluation beyond the end")
        \union Must(nstep <= opt.nmax, "R05", "more attempts than the limit")
        \union (IF IsNum(hh) THEN R.lab ELSE {})
        \union (IF hasEst
                THEN Must(mayEst \/ ~R.conv, "R02", "error filtered twice although it was below one, or on an ordinary step")
                     \union Must(mayEst => /\ Eq(Rec.est[1].t, x)
                                 /\ (VIsNum(e1) => VNear(Rec.est[1].y, VAdd(Base, e1), Add(Mul(rel, Add(NormInf(Base), NormInf(e1))), Mul("1E-9", amp1)))),
                                 "R02", "argument of the second error estimate")
                     \union Must(R.conv, "R02", "error estimated although Newton's iteration did not converge")
                ELSE {})
        \union (IF kind = "acc"
           THEN Must(R.conv, "R02", "advances although Newton's iteration did not converge")
                \union Must(R.conv => (IF hasEst THEN errBelow ELSE mayNoEst /\ errBelow), "R02", "advances although the error is above one")
                \union Must(moved, IF opt.one THEN "R07" ELSE "R01", "time after an accepted step")
                \union Must(ynOk, IF opt.one THEN "R07" ELSE "R01", "solution after an accepted step")
                \union Must(ynOk, "R04", "new solution")
                \union (IF reJac THEN {<<"R04", "Jacobian of the old point computed after an accepted step">>} ELSE {})
           ELSE Must(canRej \/ canFail, "R03", "an attempt which passes the tests is not accepted")
                \union Must(canRej \/ canFail, "R02", "an attempt which passes the tests is not accepted")
                \union Must(same, "R05", "time and solution at the exception")
                \union Must(same, "R02", "a failed attempt changes time or solution")
                \union (IF Nxt.e = "att"
                        THEN Must(reJac => JacAt(Rec, Bg), "R04", "Jacobian not at the current point")
                             \union Must(reJac \/ jac = y, "R04", "retry with the Jacobian of an older point")
                             \union Must(~(reJac /\ jac = y), "R04", "Jacobian computed twice at the same point")
                        ELSE {}))
  IN [labels |-> labels, kind |-> kind, amb |-> IF kind # "acc" /\ canFail /\ canRej THEN 1 ELSE 0, nlo |-> nlo, nhi |-> nhi, xn |-> xn, hn |-> hn, hh |-> hh, reJac |-> reJac,
      unlim |-> IF kind = "acc" /\ IsNum(nhi) THEN Str(HnewAccepted(hh, el, nw, eahi, hacc, FALSE)) ELSE nhi,
      ealo |-> Str(Max2("0.01", el)), eahi |-> Str(Max2("0.01", eh)),
      fl |-> R.fl, fu |-> R.fu, tl |-> R.tl, tu |-> R.tu, z |-> <<StrV(R.z[1]), StrV(R.z[2]), StrV(R.z[3]), Str(Mul(rel, Add(NormInf(Base), Add(NormInf(R.z[3]), R.mag))))>>,
      dbg |-> IF labels # {} /\ Prop = "ANY"
              THEN PrintT(<<"DBG", tr, l, labels, "kind", kind, "h", h, Str(ho), "want", hlo, hhi, "err", hasEst, el, eh, Str(v1),
                            "cond", cd, "hold", hold, "args", [i \in 1 .. 3 |-> <<StrV(VAdd(Base, Z0[i])), Rec.it[1][i].y>>], "rel", Str(rel), "fn", fn, "fac", fac, "nw", nw, "R", [R EXCEPT !.z = <<>>],
                            "nstep", nstep, "naccpt", naccpt, "rej", rejected>>) ELSE TRUE]

TraceAtt ==
  /\ IsRec("att")
  /\ Go /\ UNCHANGED <<ls, lb>>
  /\ nf' = nf + 3 * Len(Rec.it) + Len(Rec.est) + Len(Rec.cols)
  /\ IF pc # "try"
     THEN /\ UNCHANGED <<lj, ljb, hlo, hhi, hop, first, newt, amb>> /\ KeepNewton
          /\ IF pc = "lost" THEN KeepControl /\ UNCHANGED bad
             ELSE /\ Lost
                  /\ bad' = bad \union {IF pc = "done" THEN <<IF opt.one THEN "R07" ELSE "R01", "goes on after the end">> ELSE <<"ALL", "unexpected attempt">>}
     ELSE IF ~NumJac     \* nothing can be said about the linear systems any more
     THEN Lost /\ KeepNewton /\ UNCHANGED <<lj, ljb, hlo, hhi, hop, first, newt, amb, bad>>
     ELSE IF Nxt.e \notin {"begin", "att", "end"}
     THEN KeepControl /\ KeepNewton /\ UNCHANGED <<lj, ljb, hlo, hhi, hop, first, newt, amb, bad>>
     ELSE
       \E A \in {Judge} :
          /\ A.dbg
          /\ bad' = bad \union A.labels /\ amb' = <<amb[1], amb[2] + A.amb>>
          /\ hlo' = A.nlo /\ hhi' = A.nhi
          /\ fac' = <<A.fl, A.fu>> /\ th' = <<A.tl, A.tu>>
          /\ lj' = (IF A.reJac THEN l ELSE lj) /\ ljb' = (IF A.reJac THEN lb ELSE ljb)
          /\ newt' = (IF A.kind = "fail" THEN 0 ELSE Len(Rec.it))
          /\ IF A.kind = "acc"
             THEN /\ zp' = A.z /\ hold' = A.hh
                  /\ first' = (IF naccpt = 0 THEN A.hh ELSE first)
                  /\ hop' = IF last \/ opt.one THEN hop
                            ELSE IF ~IsNum(A.nlo) THEN <<"nan", "nan">>
                            ELSE LET a == Min2(Abs(A.nlo), Abs(A.nhi))
                                     b == Max2(Abs(A.nlo), Abs(A.unlim))
                                 IN <<Str(Mul(opt.dir, Min2(Abs(A.hh), a))),
                                      Str(Mul(opt.dir, IF opt.dir = 1 THEN Min2(Abs(A.hh), b) ELSE Max2(Abs(A.hh), b)))>>
             ELSE UNCHANGED <<zp, hold, first, hop>>
          /\ IF nstep > opt.nmax THEN Lost
             ELSE CASE A.kind = "acc" -> Accept(A.xn, A.hn, <<A.ealo, A.eahi>>)
                    [] A.kind = "fail" -> NewtonFails(A.hn)
                    [] OTHER -> Reject(A.hn)

NanJac == lj > ls /\ (\E i \in 1 .. N : ~VIsNum(JacOf(Recs[lj], Recs[ljb])[i]) \/ ~IsNum(h))

TraceEnd ==
  /\ IsRec("end")
  /\ Go /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>> /\ KeepNewton
  /\ IF pc = "lost" THEN bad' = bad /\ KeepControl ELSE
     LET empty == Eq(St.x, St.xend)
         nan == NanJac
         counters ==
           Must(Rec.nstep = nstep, "R06", "number of steps")
           \union Must(Rec.naccpt = naccpt, "R06", "number of accepted steps")
           \union Must(Rec.nrejct - nrejct \in (-amb[2]) .. amb[2], "R06", "number of rejected steps")
           \union Must(Rec.njac = njac, "R06", "number of Jacobians")
           \union Must(nan \/ (LET a == amb[1] + (IF Recs[l - 1].e = "begin" THEN 1 ELSE 0) IN Rec.ndec - ndec \in (-a) .. a), "R06", "number of factorisations")
           \union Must(Rec.nf = nf, "R06", "number of evaluations of the right-hand side")
           \union Must(naccpt > 0 => HClose(Rec.first, first, first, St.x), "R06", "first accepted step")
         normal ==
           Must(pc = "done", IF opt.one THEN "R07" ELSE "R01", "returns before the end")
           \union Must(opt.one \/ Le(Span(Rec.x, xend), RealSlack(xend)), "R01", "returns at another time")
           \union Must(naccpt > 0 => Rec.newt = newt, "R06", "number of Newton iterations")
           \union (IF empty THEN Must(Eq(Rec.x, St.x) /\ VSame(Rec.y, St.y) /\ naccpt = 0, "R01", "empty interval") ELSE {})
           \union (IF ~empty /\ naccpt > 0
                   THEN IF opt.one THEN Must(HClose(Rec.hlast, hold, hold, St.x), "R06", "last step")
                        ELSE IF IsNum(hop[1]) THEN Must(HClose(Rec.hlast, hop[1], hop[2], St.x), "R06", "last step") ELSE {}
                   ELSE {})
         exc ==
           LET reason == (pc = "try" /\ nstep > opt.nmax) \/ nan
           IN Must(reason, "R05", "exception without a reason") \union Must(reason, "R01", "exception without a reason")
           \union Must(Eq(Rec.x, x), "R05", "time at the exception")
           \union Must(VSame(Rec.y, IF lb > ls THEN Base ELSE St.y), "R05", "solution at the exception")
     IN /\ bad' = bad \union counters \union (IF Rec.exc = 0 THEN normal ELSE exc)
        /\ IF Rec.exc = 1 /\ ENABLED GiveUp THEN GiveUp
           ELSE /\ pc' = IF Rec.exc = 0 THEN "done" ELSE "exc"
                /\ UNCHANGED <<x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt>>

\* a call which is not recorded, then the same on a new object
TraceAgain ==
  /\ IsRec("again")
  /\ Go /\ KeepControl /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop, bad>>
TraceTwin ==
  /\ IsRec("twin")
  /\ Go /\ KeepControl /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>>
  /\ LET a == Recs[l - 1] IN
     bad' = bad \union Must(
       /\ a.exc = Rec.exc /\ a.hash = Rec.hash /\ VSame(<<a.x>>, <<Rec.x>>) /\ VSame(a.y, Rec.y)
       /\ a.nstep = Rec.nstep /\ a.naccpt = Rec.naccpt /\ a.nrejct = Rec.nrejct /\ a.njac = Rec.njac
       /\ a.ndec = Rec.ndec /\ a.nf = Rec.nf /\ VSame(<<a.first>>, <<Rec.first>>) /\ VSame(<<a.hlast>>, <<Rec.hlast>>),
       "R07", "a reused object differs from a new one")

\* refusal of an unreasonable setting; what was set before stays
TraceRefuse ==
  /\ IsRec("refuse")
  /\ Go /\ KeepControl /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>>
  /\ bad' = bad \union Must(Rec.refused = Le(Rec.value, Div("1E-16", Mul("0.1", Pow(Rec.rtol1, Expm)))), "R03", "setFnewt accepts or refuses wrongly")

TraceOther ==
  /\ l <= Len(Recs) /\ Rec.e \in {"cut", "stopped", "crash", "shape"}
  /\ Go /\ KeepControl /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>>
  /\ bad' = bad \union CASE Rec.e = "cut" -> {}
                         [] Rec.e = "stopped" -> {<<"R05", "does not terminate">>}
                         [] Rec.e = "crash" -> {<<"ALL", "crash or hang">>}
                         [] OTHER -> {<<"ALL", "calls which are not those of the method">>}
\* a step below rounding: the attempts cannot be told apart any more; what is left is the end
TraceBlur ==
  /\ IsRec("blur")
  /\ Go /\ Lost /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>>
  /\ bad' = bad \union
       (IF Nxt.e = "end" THEN
          Must(Nxt.exc = 1 => nstep <= opt.nmax + 1 /\ Nxt.nstep > opt.nmax, "R05", "exception without a reason")
          \union Must(Nxt.exc = 1 => Eq(Nxt.x, x) /\ VSame(Nxt.y, IF lb > ls THEN Base ELSE St.y), "R05", "time and solution at the exception")
          \union Must(Nxt.nstep <= opt.nmax + 1, "R05", "more attempts than the limit")
        ELSE {})

Done == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceStart \/ TraceBegin \/ TraceAtt \/ TraceEnd \/ TraceAgain \/ TraceTwin \/ TraceRefuse \/ TraceOther \/ TraceBlur \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Conforms == Enforced(bad) = {} /\ (Prop = "R01" => Inside)
ASSUME RadauConditions
=============================================================================
