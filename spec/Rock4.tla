------------------------------- MODULE Rock4 -------------------------------
(***************************************************************************)
(* Control of the Rock4 integrator: what may follow what, and what is      *)
(* remembered.  One action per observable event of the code:               *)
(*   Start            entry: F is evaluated at the initial point           *)
(*   Ask              the spectral radius is asked to the user             *)
(*   Prepare          the step and the degree of an attempt are chosen     *)
(*   Accept / Reject  one attempt and the decision                         *)
(*   GiveUp           exception: the step is too small                     *)
(*                                                                         *)
(* The solution and F(solution) are kept in two buffers, which are         *)
(* exchanged with work buffers and never copied.  own is the pair of       *)
(* buffers which hold them, holds what every buffer contains:              *)
(* <<"y", v>> or <<"f", v>> for version v of the solution (v accepted      *)
(* attempts), "work" for anything else.                                    *)
(*                                                                         *)
(* The same module is model checked exhaustively (module MCRock4, numbers  *)
(* are small integers) and bound to recorded executions (module            *)
(* Rock4Trace, real numbers, the actual laws and buffers).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Num

CONSTANTS NearEnd(_, _),    \* step, rest |-> the step is stretched to the rest
          TooSmall(_),      \* step |-> refused
          Stages(_, _),     \* step, spectral radius |-> number of stages needed
          MaxStages,        \* the most that is available
          LimitStep(_),     \* spectral radius |-> step used when that does not suffice
          DegreeFor(_),     \* stages |-> tabulated degree used
          AskEvery          \* accepted steps which may share one spectral radius

VARIABLES
  pc,        \* "idle", "ready" (before an attempt), "try", "done", "exc"
  t, tend,
  h,         \* proposed step (ready), step in use (try)
  deg,       \* degree in use
  rho,       \* spectral radius in use, 0 - 1 when unknown
  fresh,     \* rho was asked at the present point
  since,     \* accepted steps since rho was asked
  rejected,  \* the previous attempt was rejected
  stuck,     \* consecutive rejections
  facmax,    \* limit of the growth of the step
  hp, errp,  \* memory of the last accepted attempt: step, error
  nsteps, nacc, nrej, nf, nst,
  own, holds

kvars == <<pc, t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>

Rest == Sub(tend, t)
InitVars(o, c) ==
  /\ pc = "idle" /\ t = 0 /\ tend = 0 /\ h = 0 /\ deg = 0 /\ rho = -1 /\ fresh = FALSE /\ since = 0
  /\ rejected = FALSE /\ stuck = 0 /\ facmax = 5 /\ hp = 0 /\ errp = 0
  /\ nsteps = 0 /\ nacc = 0 /\ nrej = 0 /\ nf = 0 /\ nst = 0
  /\ own = o /\ holds = c

\* o: buffers of the solution and of F(solution); c: what the buffers hold
Start(t0, t1, h0, o, c) ==
  /\ pc \in {"idle", "done", "exc"}
  /\ pc' = IF Lt(t0, t1) THEN "ready" ELSE "done"
  /\ t' = t0 /\ tend' = t1 /\ h' = h0 /\ deg' = 0 /\ rho' = -1 /\ fresh' = FALSE /\ since' = 0
  /\ rejected' = FALSE /\ stuck' = 0 /\ facmax' = 5 /\ hp' = h0 /\ errp' = 0
  /\ nsteps' = 0 /\ nacc' = 0 /\ nrej' = 0 /\ nf' = 1 /\ nst' = 0
  /\ own' = o /\ holds' = c

\* step wanted at the beginning of an attempt: stretched or cut to the end
Wanted(s) == IF NearEnd(s, Rest) THEN Rest ELSE s
\* step used: limited by the maximum number of stages
Used(s, r) == IF MaxStages < Stages(Wanted(s), r) THEN LimitStep(r) ELSE Wanted(s)
StagesUsed(s, r) == IF MaxStages < Stages(Wanted(s), r) THEN MaxStages ELSE Stages(Wanted(s), r)

Ask(r) ==
  /\ pc = "ready" /\ ~TooSmall(Wanted(h))
  /\ rho' = r /\ fresh' = TRUE /\ since' = 0
  /\ UNCHANGED <<pc, t, tend, h, deg, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>

\* is the spectral radius recent enough to be used?
RhoOk == (nsteps = 0 \/ rejected => fresh) /\ since <= AskEvery
Prepare(hu, d) ==
  /\ pc = "ready" /\ ~TooSmall(Wanted(h)) /\ RhoOk
  /\ pc' = "try" /\ h' = hu /\ deg' = d
  /\ nst' = IF d + 4 > nst THEN d + 4 ELSE nst
  /\ UNCHANGED <<t, tend, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, own, holds>>

\* an attempt leaves the new solution and F(new solution) in two buffers o; c
\* is what the buffers hold then
Accept(tn, hn, e, o, c) ==
  /\ pc = "try"
  /\ t' = tn /\ h' = hn /\ hp' = h /\ errp' = e
  /\ own' = o /\ holds' = c
  /\ rejected' = FALSE /\ stuck' = 0 /\ facmax' = 2
  /\ fresh' = FALSE /\ since' = since + 1
  /\ nsteps' = nsteps + 1 /\ nacc' = nacc + 1 /\ nf' = nf + deg + 4
  /\ pc' = IF Lt(tn, tend) THEN "ready" ELSE "done"
  /\ UNCHANGED <<tend, deg, rho, nrej, nst>>
Reject(hn, c) ==
  /\ pc = "try"
  /\ h' = hn /\ rejected' = TRUE /\ stuck' = stuck + 1
  /\ facmax' = IF rejected THEN 1 ELSE facmax
  /\ holds' = c
  /\ nsteps' = nsteps + 1 /\ nrej' = nrej + 1 /\ nf' = nf + deg + 4
  /\ pc' = "ready"
  /\ UNCHANGED <<t, tend, deg, rho, fresh, since, hp, errp, nacc, nst, own>>

GiveUp ==
  /\ pc = "ready" /\ TooSmall(Wanted(h))
  /\ pc' = "exc"
  /\ UNCHANGED <<t, tend, h, deg, rho, fresh, since, rejected, stuck, facmax, hp, errp, nsteps, nacc, nrej, nf, nst, own, holds>>

\* ---- what users rely on ---------------------------------------------------
Lands == (pc = "done" /\ nsteps > 0) => Eq(t, tend)
Inside == nsteps > 0 => Le(t, tend)
StepInside == pc = "try" => Lt(0, h) /\ Le(Sub(h, Rest), 0)
\* the product of the step and of the spectral radius is in the stability interval
EnoughStages == pc = "try" => /\ Stages(h, rho) <= deg + 4
                              /\ deg + 4 <= MaxStages
                              /\ deg = DegreeFor(Stages(h, rho)) \/ deg + 4 = MaxStages
RecentRho == pc = "try" => since <= AskEvery /\ (nsteps = 0 \/ rejected => fresh)
Counts == /\ nsteps = nacc + nrej
          /\ nf >= 1 + 5 * nsteps \/ pc = "idle"
          /\ stuck <= nrej /\ nst <= MaxStages
\* between attempts, the solution and its derivative are where they should be
Owned == pc # "idle" => /\ own[1] # own[2]
                        /\ holds[own[1]] = <<"y", nacc>>
                        /\ holds[own[2]] = <<"f", nacc>>
Together == [][(t' # t \/ own' # own) => (pc = "try" /\ nacc' = nacc + 1) \/ pc \in {"idle", "done", "exc"}]_kvars
Monotone == [][pc = "try" /\ t' # t => Lt(t, t')]_kvars
RetrySmaller == [][pc = "try" /\ nrej' = nrej + 1 => Lt(h', h)]_kvars
=============================================================================
