----------------------------- MODULE Rock4LTrace -----------------------------
(***************************************************************************)
(* Executions of Rock4L against module Rock4L.  Records:                   *)
(*   start  call: form, interval, step, spectral radius, data              *)
(*   step   one step: its number of calls and the solution it starts from  *)
(*   end    what is returned                                               *)
(*   opaque the steps cannot be told from one another (only the result is  *)
(*          judged)                                                        *)
(* The problem: unknown 1 is a clock; unknown 2 is constant; unknowns 3, 4 *)
(* have a symmetric matrix with eigenvalues l1 and l2, and in the affine   *)
(* case a constant.  TABLES: the polynomials (judged by Rock4LMethod).     *)
(***************************************************************************)
EXTENDS TraceLib

Tables == JsonDeserialize(IOEnv.TABLES)
RealNearEnd(s, r) == Le(r, Mul("1.01", s))
RealTooSmall(s) == Lt(s, "1E-15")
RealStages(s, r) == LET k == Floor(Add(Sqrt(Div(Add(3, Mul(s, r)), "0.353")), 1)) IN IF Lt(k, 5) THEN 5 ELSE k
RealDegree(s) == Tables[CHOOSE q \in 1 .. Len(Tables) : Le(s, Tables[q].d + 4) /\ (q = 1 \/ Lt(Tables[q - 1].d + 4, s))].d
TableOf(d) == Tables[CHOOSE q \in 1 .. Len(Tables) : Tables[q].d = d]

VARIABLES pc, t, tend, h, rho, nsteps, nf, nst, applied
INSTANCE Rock4L WITH NearEnd <- RealNearEnd, TooSmall <- RealTooSmall, Stages <- RealStages, MaxStages <- 152, DegreeFor <- RealDegree
VARIABLES tr, l, ls, bad
control == <<pc, t, tend, h, rho, nsteps, nf, nst, applied>>
tvars == <<pc, t, tend, h, rho, nsteps, nf, nst, applied, tr, l, ls, bad>>

Recs == Traces[tr]
Rec == Recs[l]
St == Recs[ls]
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr
HasNext == l + 1 <= Len(Recs)
Nxt == Recs[l + 1]

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ ls = 1 /\ bad = {} /\ InitVars

TraceStart ==
  /\ IsRec("start") /\ Go /\ ls' = l
  /\ IF Rec.wrong THEN Refuse ELSE Start(Rec.t, Rec.tend, Rec.h, Rec.rho)
  /\ bad' = bad

Poly(p, m, z) ==
  LET RECURSIVE go(_, _)
      go(i, a) == IF i = 0 THEN a ELSE go(i - 1, Add(Mul(a, z), p[i]))
  IN go(m, p[m + 1])
\* values of the two polynomials of degree d
RQ(d, z) == LET p == TableOf(d).p
                q == [i \in 1 .. d + 4 |-> p[i + 1]]
            IN <<Poly(p, d + 4, z), Poly(q, d + 3, z)>>
\* the solution after a step s with degree d from y
After(d, s, y) ==
  LET P1 == RQ(d, Mul(s, St.l1))
      P2 == RQ(d, Mul(s, St.l2))
      bb(i) == IF St.affine THEN Mul(s, St.b[i]) ELSE 0
      u == Add(Mul(P1[1], Add(y[3], y[4])), Mul(P1[2], Add(bb(3), bb(4))))
      v == Add(Mul(P2[1], Sub(y[3], y[4])), Mul(P2[2], Sub(bb(3), bb(4))))
  IN <<Add(y[1], s), y[2], Div(Add(u, v), 2), Div(Sub(u, v), 2)>>
Scale(y) == Add(1, Add(NormInf(y), Mul(Abs(h), NormInf(St.b))))
Moderate(s) == Le(Abs(Mul(s, St.l1)), 9) /\ Le(Abs(Mul(s, St.l2)), 9)
Around(s) == <<Mul(s, Sub(1, "1E-12")), s, Mul(s, Add(1, "1E-12"))>>

TraceStep ==
  /\ IsRec("step") /\ Go /\ ls' = ls
  /\ \E J \in {LET
         d == Rec.calls - 4
         here == pc = "ready"
         \* the steps allowed: within rounding of the law
         cand == [i \in 1 .. 3 |-> LET s == Around(h)[i] IN IF RealNearEnd(s, Rest) THEN Rest ELSE IF i = 2 THEN h ELSE h]
         after == IF HasNext THEN Nxt ELSE [e |-> "none"]
         yn == IF after.e \in {"step", "end"} THEN after.y ELSE Rec.y
         seen == Sub(yn[1], Rec.y[1])
         eps == Add(Mul("1E-11", Abs(h)), Mul(4, Ulp(Add(Abs(yn[1]), Abs(Rec.y[1])))))
         match(i) == Near(seen, cand[i], eps)
         s == IF match(2) THEN cand[2] ELSE IF match(1) THEN cand[1] ELSE IF match(3) THEN cand[3] ELSE cand[2]
         known == \E q \in 1 .. Len(Tables) : Tables[q].d = d
         degOk == \E i \in 1 .. 3 : LET g == RealStages(Around(s)[i], rho) IN Le(g, 152) /\ d = RealDegree(g)
         enough == \E i \in 1 .. 3 : Le(RealStages(Around(s)[i], rho), d + 4)
         good == here /\ (\E i \in 1 .. 3 : match(i)) /\ degOk
         ya == After(d, s, Rec.y)
      IN [s |-> Str(s), last |-> Eq(s, Rest),
          labels |->
            Must(here, "L02", "goes on after the end")
            \union (IF here THEN
               Must(nsteps > 0 \/ VSame(Rec.y, St.y), "L02", "does not start from the initial value")
               \union Must(\E i \in 1 .. 3 : match(i), "L02", "length of the step")
               \union Must(~RealTooSmall(Used), "L02", "a step which is too small is not refused")
               \union Must(enough, "L02", "not enough stages")
               \union Must(degOk, "L02", "another degree than the smallest which suffices")
               \union (IF good /\ Moderate(s) /\ after.e \in {"step", "end"}
                       THEN Must(VNear(yn, ya, Mul("1E-10", Scale(Rec.y))), "L01", "the solution after a step")
                            \union Must(VNear(yn, ya, Mul("1E-10", Scale(Rec.y))), "L02", "the solution after a step")
                       ELSE {}) ELSE {})] } :
       /\ bad' = bad \union J.labels
       /\ IF pc = "ready" THEN StepWith(J.s, Rec.calls - 4, J.last) ELSE UNCHANGED control

TraceEnd ==
  /\ IsRec("end") /\ Go /\ ls' = ls
  /\ LET canGive == pc = "ready" /\ \E i \in 1 .. 3 : LET s0 == Around(h)[i]
                                                         s == IF RealNearEnd(s0, Rest) THEN Rest ELSE s0
                                                     IN RealTooSmall(Mul(s, "0.999999")) \/ RealStages(s, rho) > 152
         counters == Must(Rec.nsteps = nsteps, "L02", "number of steps")
                     \union Must(Rec.nf = nf, "L02", "number of evaluations")
                     \union Must(Rec.nst = nst, "L02", "number of stages")
                     \union Must(Rec.size = Len(St.y), "L02", "number of unknowns")
     IN /\ bad' = bad \union Must(Rec.alias = 0, "L01", "an argument is overwritten while it is read") \union
             (IF pc = "lost" THEN Must(Rec.exc = 0 => Eq(Rec.time, IF Lt(St.t, St.tend) THEN St.tend ELSE St.t), "L02", "final time")
              ELSE IF pc = "refused"
              THEN Must(Rec.exc = 1, "L02", "the other call form is not refused")
                   \union Must(VSame(Rec.y, St.y) /\ Rec.rhos = 0, "L02", "the other call form touches the data")
              ELSE counters
                   \union (IF Rec.exc = 0 THEN Must(pc = "done", "L02", "returns before the end") \union Must(Eq(Rec.time, IF Lt(St.t, St.tend) THEN tend ELSE St.t), "L02", "final time")
                           ELSE Must(canGive, "L02", "exception without a reason")
                                \union Must(pc # "ready" \/ Near(Rec.time, t, Mul(4, Ulp(t))), "L02", "time of the exception"))
                   \union (IF nsteps = 0 THEN Must(VSame(Rec.y, St.y), "L02", "the data are changed without a step") ELSE {}))
        /\ IF pc = "ready" /\ Rec.exc # 0 THEN pc' = "exc" /\ UNCHANGED <<t, tend, h, rho, nsteps, nf, nst, applied>>
           ELSE pc' = (IF pc = "lost" THEN "exc" ELSE pc) /\ UNCHANGED <<t, tend, h, rho, nsteps, nf, nst, applied>>

TraceOther ==
  /\ l <= Len(Recs) /\ Rec.e \in {"crash", "shape", "opaque", "cut"}
  /\ Go /\ ls' = ls
  /\ pc' = "lost" /\ UNCHANGED <<t, tend, h, rho, nsteps, nf, nst, applied>>
  /\ bad' = bad \union CASE Rec.e = "crash" -> {<<"ALL", "crash or hang">>}
                         [] Rec.e = "shape" -> {<<"ALL", "calls which are not those of the method">>}
                         [] OTHER -> {}

Done == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceStart \/ TraceStep \/ TraceEnd \/ TraceOther \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {}
=============================================================================
