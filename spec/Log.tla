-------------------------------- MODULE Log ---------------------------------
(***************************************************************************)
(* The event log of the integrators: a sequence of events                  *)
(*   [t |-> time, n |-> number of attempts made, ev |-> kind, v |-> value] *)
(* (Rock4 counts the attempt an event belongs to, which is the same for    *)
(* events which come after it).                                            *)
(*                                                                         *)
(* The first part is the container.  The second says what a log tells      *)
(* about an integration: Wrong(L, A, ini, dg) lists what the log L gets    *)
(* wrong about the attempts A of an integration; dg says with how many     *)
(* digits numbers are written.                                             *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
CONSTANTS Within(_, _, _, _, _),   \* Within(v, lo, hi, x, dg): the value v written may be a step between lo and hi, at time x
          SameNumber(_, _, _),     \* SameNumber(a, b, dg)
          Identical(_, _),         \* the same number written twice
          Known(_)                 \* it is a number

Kinds == {"success", "rejectedStep", "NewtonFailed", "NewtonWillNotConverge", "changedH"}
KindOrder == <<"success", "rejectedStep", "NewtonFailed", "NewtonWillNotConverge", "changedH", "all">>

\* ---- the container ---------------------------------------------------------
Empty == << >>
Put(L, e) == Append(L, e)
Kept(L, k) == IF k = "all" THEN L ELSE SelectSeq(L, LAMBDA e : e.ev = k)
\* what is read: the events kept, numbered from one
Lines(L, k) == LET F == Kept(L, k) IN [i \in 1 .. Len(F) |-> [no |-> i, t |-> F[i].t, n |-> F[i].n, ev |-> F[i].ev, v |-> F[i].v]]

\* ---- what a log says about an integration ----------------------------------
(* A[i], attempt number i: kinds, the kinds of event one of which tells how  *)
(* it ended ({}: nothing is told); x, the time after it; lo, hi, bounds of   *)
(* its step; vals, bounds of the values this event may have.                 *)
(* ini: x0, h0 (time and step given by the user); hend, the step at the end; *)
(* changes: whether changes of the step are logged; tail: also that which     *)
(* comes after the last attempt.                                             *)
Group(L, i) == SelectSeq(L, LAMBDA e : e.n = i)
Changed(g) == SelectSeq(g, LAMBDA e : e.ev = "changedH")
Outcomes(g) == SelectSeq(g, LAMBDA e : e.ev # "changedH")
Last(s) == s[Len(s)]
Ordered(L) == \A i \in 1 .. Len(L) - 1 : L[i].n <= L[i + 1].n

\* the step of the attempt after attempt i (0: the first one) is v
NextStep(A, i, ini, v, dg) ==
  IF i < Len(A) THEN Within(v, A[i + 1].lo, A[i + 1].hi, A[i + 1].x0, dg)
  ELSE Within(v, ini.hend, ini.hend, 0, dg)

AtStart(L, A, ini, dg) ==
  LET g == Group(L, 0) IN
  IF ~ini.changes THEN IF g = << >> THEN {} ELSE {"event before the first attempt"}
  ELSE IF g = << >> THEN {"the step given by the user is not logged"}
  ELSE (IF Outcomes(g) = << >> THEN {} ELSE {"event before the first attempt"})
       \union (IF \A i \in 1 .. Len(g) : SameNumber(g[i].t, ini.x0, dg) THEN {} ELSE {"time of an event"})
       \union (IF SameNumber(g[1].v, ini.h0, dg) THEN {} ELSE {"the step given by the user is not logged"})
       \union (IF NextStep(A, 0, ini, Last(g).v, dg) THEN {} ELSE {"value of the first step"})

AtAttempt(L, A, i, ini, dg) ==
  LET g == Group(L, i)
      a == A[i]
      o == Outcomes(g)
      c == Changed(g)
  IN (IF Len(o) = (IF a.kinds = {} THEN 0 ELSE 1) THEN {} ELSE {"event missing, repeated or without a reason"})
     \union (IF Len(o) = 1 /\ a.kinds # {} /\ o[1].ev \notin a.kinds THEN {"kind of an event"} ELSE {})
     \union (IF Len(o) = 1 /\ o[1].ev = "rejectedStep" /\ ~(\E k \in 1 .. Len(a.vals) : Within(o[1].v, a.vals[k][1], a.vals[k][2], a.x, dg))
             THEN {"value of an event"} ELSE {})
     \union (IF \A k \in 1 .. Len(g) : SameNumber(g[k].t, a.x, dg) THEN {} ELSE {"time of an event"})
     \union (IF ~ini.changes
             THEN IF c = << >> THEN {} ELSE {"event without a reason"}
             ELSE IF c = << >>
                  THEN IF (IF i = Len(A) THEN ~ini.tail \/ Within(ini.hend, a.lo, a.hi, a.x, dg)
                           ELSE Within(A[i + 1].lo, a.lo, a.hi, a.x, dg) \/ Within(A[i + 1].hi, a.lo, a.hi, a.x, dg))
                       THEN {} ELSE {"change of step which is not logged"}
                  ELSE IF NextStep(A, i, ini, Last(c).v, dg) THEN {} ELSE {"value of a step"})
     \union (IF \A k \in 1 .. Len(c) - 1 : ~Identical(c[k].v, c[k + 1].v) THEN {} ELSE {"change of step logged twice"})

Wrong(L, A, ini, dg) ==
  (IF Ordered(L) THEN {} ELSE {"order of the events"})
  \union (IF \A k \in 1 .. Len(L) : L[k].n \in 0 .. Len(A) /\ L[k].ev \in Kinds THEN {} ELSE {"event of no attempt"})
  \union AtStart(L, A, ini, dg)
  \union (UNION {AtAttempt(L, A, i, ini, dg) : i \in 1 .. Len(A)})
=============================================================================
