------------------------------- MODULE Rodas -------------------------------
(***************************************************************************)
(* Control of the Rodas integrator: what may follow what, and what is      *)
(* remembered.  One action per observable event of the code:               *)
(*   Start     entry of the integrator                                     *)
(*   BeginStep evaluation of F and of the Jacobian at the current point    *)
(*   Accept / Reject   one attempt (six stages, error estimate, decision)  *)
(*   GiveUp    exception                                                   *)
(* The same module is model checked exhaustively (module MCRodas, numbers  *)
(* are small integers, error estimates and new steps are chosen freely)    *)
(* and bound to recorded executions (module RodasTrace, real numbers and   *)
(* the actual step-size law).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

CONSTANTS Stretch(_),       \* h |-> 1.0001 h, used to detect the last step
          TooSmall(_, _),   \* h, x |-> the step is negligible
          DefaultStep(_),   \* proposed step |-> step used when it is null
  Slack(_)          \* rounding allowed on a time

VARIABLES
  pc,        \* "idle", "step" (about to evaluate F,J), "try" (about to attempt), "done", "exc"
  x, xend,   \* current time, requested end
  y,         \* identity of the solution: number of accepted updates
  h,         \* step
  last,      \* this step reaches xend
  rejected,  \* the previous attempt of this step was rejected
  nstep, naccpt, nrejct, njac, ndec,
  hacc, erracc,  \* memory of predictive control
  opt        \* [nmax, one (one step mode), gus, safe]

rvars == <<pc, x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>

Dir == IF Lt(xend, x) THEN -1 ELSE 1
Span(a, b) == Abs(Sub(b, a))
InitVars(o) ==
  /\ pc = "idle" /\ x = 0 /\ xend = 0 /\ y = 0 /\ h = 0 /\ last = FALSE /\ rejected = FALSE
  /\ nstep = 0 /\ naccpt = 0 /\ nrejct = 0 /\ njac = 0 /\ ndec = 0
  /\ hacc = 0 /\ erracc = 0 /\ opt = o

\* dir and span are those of the whole integration
dirOf(a, b) == IF Lt(b, a) THEN -1 ELSE 1

Start(x0, x1, h0, o) ==
  /\ pc \in {"idle", "done", "exc"}
  /\ pc' = IF Eq(x0, x1) THEN "done" ELSE "step"
  /\ x' = x0 /\ xend' = x1 /\ opt' = o
  /\ h' = IF Eq(x0, x1) THEN h0 ELSE DefaultStep(h0)
  /\ last' = FALSE /\ rejected' = FALSE
  /\ nstep' = 0 /\ naccpt' = 0 /\ nrejct' = 0 /\ njac' = 0 /\ ndec' = 0
  /\ UNCHANGED <<y, hacc, erracc>>

\* the step really attempted, from the proposed one
Clamped(x0, x1, hp) == Mul(dirOf(x0, x1), Min2(Abs(hp), opt.span))
IsLast(x0, x1, hc) == Lt(0, Mul(dirOf(x0, x1), Sub(Add(x0, Stretch(hc)), x1)))
StepUsed(x0, x1, hp) == LET hc == Clamped(x0, x1, hp) IN
                        IF IsLast(x0, x1, hc) THEN Sub(x1, x0) ELSE hc

BeginStep ==
  /\ pc = "step"
  /\ ~TooSmall(h, x)
  /\ h' = Str(StepUsed(x, xend, h))
  /\ last' = IsLast(x, xend, Clamped(x, xend, h))
  /\ njac' = njac + 1
  /\ pc' = "try"
  /\ UNCHANGED <<x, xend, y, rejected, nstep, naccpt, nrejct, ndec, hacc, erracc, opt>>

\* an accepted attempt: xn is the new time, hn the next step, e the error
Accept(xn, hn, e) ==
  /\ pc = "try" /\ nstep <= opt.nmax
  /\ x' = xn /\ y' = y + 1 /\ h' = hn
  /\ nstep' = nstep + 1 /\ ndec' = ndec + 1 /\ naccpt' = naccpt + 1
  /\ rejected' = FALSE
  /\ hacc' = (IF opt.gus THEN h ELSE hacc) /\ erracc' = (IF opt.gus THEN e ELSE erracc)
  /\ pc' = IF last \/ opt.one THEN "done" ELSE "step"
  /\ UNCHANGED <<xend, last, nrejct, njac, opt>>

Reject(hn) ==
  /\ pc = "try" /\ nstep <= opt.nmax
  /\ h' = hn
  /\ nstep' = nstep + 1 /\ ndec' = ndec + 1
  /\ nrejct' = nrejct + (IF naccpt > 0 THEN 1 ELSE 0)
  /\ rejected' = TRUE /\ last' = FALSE
  /\ UNCHANGED <<pc, x, xend, y, naccpt, njac, hacc, erracc, opt>>

GiveUp ==
  /\ \/ pc = "step" /\ TooSmall(h, x)
     \/ pc = "try" /\ nstep > opt.nmax
  /\ pc' = "exc"
  /\ UNCHANGED <<x, xend, y, h, last, rejected, nstep, naccpt, nrejct, njac, ndec, hacc, erracc, opt>>

\* ---- what users rely on ---------------------------------------------------
\* a normal return is at xend (unless one step was asked for)
Lands == (pc = "done" /\ ~opt.one) => Le(Span(x, xend), Slack(xend))
\* never beyond the end
Inside == pc # "idle" => Le(Opp(Slack(xend)), Mul(opt.dir, Sub(xend, x)))
\* never proposes to go beyond the end
StepInside == pc = "try" => /\ Lt(0, Mul(opt.dir, h))
                            /\ Le(Opp(Slack(xend)), Mul(opt.dir, Sub(xend, Add(x, h))))
LastIsLast == (pc = "try" /\ last) => Le(Span(Add(x, h), xend), Slack(xend))
Counts == /\ nstep <= opt.nmax + 1
          /\ naccpt + nrejct <= nstep
          /\ ndec = nstep
          /\ njac <= nstep + 1 /\ naccpt <= njac
\* time and solution change together, and only in an accepted step
Together == [][(x' # x \/ y' # y) =>
                 (pc = "try" /\ naccpt' = naccpt + 1 /\ y' = y + 1) \/ (pc \in {"idle", "done", "exc"})]_rvars
Monotone == [][pc = "try" /\ x' # x => Lt(Mul(opt.dir, x), Mul(opt.dir, x'))]_rvars
=============================================================================
