------------------------------- MODULE Rock4L -------------------------------
(***************************************************************************)
(* Control of the Rock4L integrator (linear and affine problems, steps     *)
(* chosen by the user).  Actions:                                          *)
(*   Start    entry with the call form of this kind of solver              *)
(*   Refuse   entry with the other call form: exception, nothing touched   *)
(*   Step     one step of length Used, with the degree which suffices      *)
(*   GiveUp   exception: the step is too small, or no degree suffices      *)
(* applied is the number of steps which the solution has gone through.     *)
(* Model checked exhaustively (MCRock4L) and bound to recorded executions  *)
(* (Rock4LTrace).                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

CONSTANTS NearEnd(_, _),    \* step, rest |-> the step is stretched to the rest
          TooSmall(_),      \* step |-> refused
          Stages(_, _),     \* step, spectral radius |-> number of stages needed
          MaxStages,        \* the most that is available
          DegreeFor(_)      \* stages |-> tabulated degree used

VARIABLES pc,     \* "idle", "ready", "done", "exc", "refused"
          t, tend, h, rho, nsteps, nf, nst, applied
lvars == <<pc, t, tend, h, rho, nsteps, nf, nst, applied>>

Rest == Sub(tend, t)
Used == IF NearEnd(h, Rest) THEN Rest ELSE h
Entry == pc \in {"idle", "done", "exc", "refused"}
InitVars == pc = "idle" /\ t = 0 /\ tend = 0 /\ h = 0 /\ rho = 0 /\ nsteps = 0 /\ nf = 0 /\ nst = 0 /\ applied = 0

Start(t0, t1, h0, r) ==
  /\ Entry
  /\ pc' = IF Lt(t0, t1) THEN "ready" ELSE "done"
  /\ t' = t0 /\ tend' = t1 /\ h' = h0 /\ rho' = r
  /\ nsteps' = 0 /\ nf' = 0 /\ nst' = 0 /\ applied' = 0

Refuse ==
  /\ Entry /\ pc' = "refused"
  /\ UNCHANGED <<t, tend, h, rho, nsteps, nf, nst, applied>>

CanStep == pc = "ready" /\ ~TooSmall(Used) /\ Stages(Used, rho) <= MaxStages
\* last: s is the rest
StepWith(s, d, last) ==
  /\ pc = "ready"
  /\ LET tn == IF last THEN tend ELSE Str(Fl(Add(t, s))) IN
     /\ t' = tn
     /\ pc' = IF Lt(tn, tend) THEN "ready" ELSE "done"
     /\ h' = IF Lt(tend, Fl(Add(tn, s))) THEN Str(Fl(Sub(tend, tn))) ELSE s
  /\ nsteps' = nsteps + 1 /\ applied' = applied + 1 /\ nf' = nf + d + 4
  /\ nst' = IF d + 4 > nst THEN d + 4 ELSE nst
  /\ UNCHANGED <<tend, rho>>
Step == CanStep /\ StepWith(Used, DegreeFor(Stages(Used, rho)), Eq(Used, Rest))

GiveUp ==
  /\ pc = "ready" /\ (TooSmall(Used) \/ Stages(Used, rho) > MaxStages)
  /\ pc' = "exc"
  /\ UNCHANGED <<t, tend, h, rho, nsteps, nf, nst, applied>>

\* ---- what users rely on ---------------------------------------------------
Lands == pc = "done" /\ nsteps > 0 => Eq(t, tend)
Inside == nsteps > 0 => Le(t, tend)
Counts == applied = nsteps /\ (pc # "idle" => nf >= 5 * nsteps) /\ nst <= MaxStages
Monotone == [][applied' # applied /\ applied' # 0 => Lt(t, t') /\ Le(t', tend)]_lvars
\* the interval of stability contains step times spectral radius
Stable == [][applied' > applied => Stages(Used, rho) <= DegreeFor(Stages(Used, rho)) + 4]_lvars
Untouched == [][pc' \in {"exc", "refused"} => applied' = applied /\ t' = t]_lvars
=============================================================================
