------------------------------- MODULE Radau -------------------------------
(***************************************************************************)
(* Control of the Radau5 integrator.  One action per observable event:     *)
(*   Start    entry of the integrator                                      *)
(*   Begin    evaluation of F (and perhaps of the Jacobian) at the current *)
(*            point, factorisation (unless the old one is kept)            *)
(*   NewtonFails / Reject / Accept   one attempt                           *)
(*   GiveUp   exception                                                    *)
(* Model checked exhaustively by MCRadau (integers, outcomes and new steps *)
(* chosen freely), bound to recorded executions by RadauTrace.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

CONSTANTS Stretch(_),       \* h |-> 1.0001 h, used to detect that the first step is the last
          Arrived(_, _),    \* x, xend |-> the remaining interval is negligible
          DefaultStep(_),   \* proposed step |-> step used when it is null
          Slack(_),         \* rounding allowed on a time
          Tiny(_)           \* less than a rounding

VARIABLES
  pc,        \* "idle", "point" (about to evaluate F), "try" (about to attempt), "done", "exc"
  x, xend,   \* current time, requested end
  y,         \* identity of the solution: number of accepted updates
  h,         \* step
  last,      \* this step reaches xend
  rejected,  \* the previous attempt from this point failed (Newton or error)
  jac,       \* identity of the solution where the Jacobian was computed
  fact,      \* <<step, Jacobian>> factorised
  nstep, naccpt, nrejct, njac, ndec,
  hacc, erracc,  \* memory of predictive control
  hopt,      \* step to propose when the end is reached
  opt        \* [nmax, one (one step mode), gus, safe, ...]

rvars == <<pc, x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt>>

Span(a, b) == Abs(Sub(b, a))
InitVars(o) ==
  /\ pc = "idle" /\ x = 0 /\ xend = 0 /\ y = 0 /\ h = 0 /\ last = FALSE /\ rejected = FALSE
  /\ jac = -1 /\ fact = << >>
  /\ nstep = 0 /\ naccpt = 0 /\ nrejct = 0 /\ njac = 0 /\ ndec = 0
  /\ hacc = 0 /\ erracc = 0 /\ hopt = 0 /\ opt = o

\* the proposed step, limited to the interval, in the right direction
Clamped(hp) == Mul(opt.dir, Min2(Abs(hp), opt.span))
\* does a first, a next step of that length reach the end?
ReachesFirst(x0, x1, hc) == Lt(0, Mul(opt.dir, Sub(Add(x0, Stretch(hc)), x1)))
ReachesNext(x0, x1, hc) == Le(Opp(Tiny(Max2(Abs(x0), Abs(x1)))), Mul(opt.dir, Sub(Add(x0, hc), x1)))

Start(x0, x1, h0, o) ==
  /\ pc \in {"idle", "done", "exc"}
  /\ pc' = IF Eq(x0, x1) THEN "done" ELSE "point"
  /\ x' = x0 /\ xend' = x1 /\ opt' = o
  /\ h' = IF Eq(x0, x1) THEN h0 ELSE DefaultStep(h0)
  /\ last' = FALSE /\ rejected' = FALSE
  /\ nstep' = 0 /\ naccpt' = 0 /\ nrejct' = 0 /\ njac' = 0 /\ ndec' = 0
  /\ jac' = -1 /\ fact' = << >> /\ hopt' = h0
  /\ UNCHANGED <<y, hacc, erracc>>

\* newj: a Jacobian is computed here; keep: the old step and factorisation are kept
Begin(newj, keep) ==
  /\ pc = "point"
  /\ naccpt = 0 => newj /\ ~keep
  /\ keep => ~newj
  /\ LET hc == Clamped(h)
         reach == IF naccpt = 0 THEN ReachesFirst(x, xend, hc) ELSE ReachesNext(x, xend, hc)
         hs == IF reach THEN Sub(xend, x) ELSE IF keep THEN fact[1] ELSE hc
     IN /\ keep => ~reach
        /\ h' = Str(hs)
        /\ last' = reach
        /\ hopt' = IF naccpt = 0 THEN Str(hs) ELSE hopt
        /\ jac' = IF newj THEN y ELSE jac
        /\ njac' = njac + (IF newj THEN 1 ELSE 0)
        /\ ndec' = ndec + (IF keep THEN 0 ELSE 1)
        /\ fact' = IF keep THEN fact ELSE <<Str(hs), jac'>>
  /\ pc' = "try"
  /\ UNCHANGED <<x, xend, y, rejected, nstep, naccpt, nrejct, hacc, erracc, opt>>

\* a failed attempt: the same point is tried again, with a Jacobian of that point
Retry(hn, err) ==
  /\ h' = hn
  /\ nstep' = nstep + 1
  /\ nrejct' = nrejct + (IF err /\ naccpt > 0 THEN 1 ELSE 0)
  /\ njac' = njac + (IF jac = y THEN 0 ELSE 1)
  /\ jac' = y
  /\ ndec' = ndec + 1 /\ fact' = <<hn, y>>
  /\ rejected' = TRUE /\ last' = FALSE
  /\ UNCHANGED <<pc, x, xend, y, naccpt, hacc, erracc, hopt, opt>>
NewtonFails(hn) == pc = "try" /\ nstep <= opt.nmax /\ Retry(hn, FALSE)
Reject(hn) == pc = "try" /\ nstep <= opt.nmax /\ Retry(hn, TRUE)

\* xn: new time; hn: step proposed by the law; e: error
Accept(xn, hn, e) ==
  /\ pc = "try" /\ nstep <= opt.nmax
  /\ x' = xn /\ y' = y + 1
  /\ nstep' = nstep + 1 /\ naccpt' = naccpt + 1
  /\ hacc' = (IF opt.gus THEN h ELSE hacc) /\ erracc' = (IF opt.gus THEN e ELSE erracc)
  /\ IF opt.one THEN pc' = "done" /\ UNCHANGED <<h, hopt, rejected>>
     ELSE IF last \/ Arrived(xn, xend) THEN pc' = "done" /\ h' = hopt /\ UNCHANGED <<hopt, rejected>>
     ELSE /\ pc' = "point" /\ h' = hn /\ hopt' = Str(Min2(h, hn)) /\ rejected' = FALSE
  /\ UNCHANGED <<xend, last, jac, fact, nrejct, njac, ndec, opt>>

GiveUp ==
  /\ pc = "try" /\ nstep > opt.nmax
  /\ pc' = "exc"
  /\ UNCHANGED <<x, xend, y, h, last, rejected, jac, fact, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, hopt, opt>>

\* ---- what users rely on ---------------------------------------------------
Lands == (pc = "done" /\ ~opt.one) => Le(Span(x, xend), Slack(xend))
Inside == pc # "idle" => Le(Opp(Slack(xend)), Mul(opt.dir, Sub(xend, x)))
StepInside == pc = "try" => /\ Lt(0, Mul(opt.dir, h))
                            /\ Le(Opp(Slack(xend)), Mul(opt.dir, Sub(xend, Add(x, h))))
LastIsLast == (pc = "try" /\ last) => Le(Span(Add(x, h), xend), Slack(xend))
Counts == /\ nstep <= opt.nmax + 1
          /\ naccpt + nrejct <= nstep
          /\ njac <= nstep + 1 /\ ndec <= nstep + 1 /\ njac <= ndec
\* the matrices are those of the step attempted and of the last Jacobian,
\* which is of the current point after a failure
FactCurrent == pc = "try" => fact = <<h, jac>> /\ (rejected => jac = y) /\ (naccpt = 0 => jac = y)
Together == [][(x' # x \/ y' # y) =>
                 (pc = "try" /\ naccpt' = naccpt + 1 /\ y' = y + 1) \/ (pc \in {"idle", "done", "exc"})]_rvars
Monotone == [][pc = "try" /\ x' # x => Lt(Mul(opt.dir, x), Mul(opt.dir, x'))]_rvars
=============================================================================
