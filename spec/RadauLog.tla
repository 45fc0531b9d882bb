------------------------------ MODULE RadauLog ------------------------------
(* The log of the integrations of RadauTrace.                               *)
EXTENDS RadauTrace, LogReal
VARIABLES hist, hok      \* the attempts; whether they are all known
lvars == <<hist, hok>>

\* How the attempt ended, from the step TraceAtt: Newton's iteration used all its
\* iterations, or was given up before
Outcome ==
  IF pc' # "try" THEN {}
  ELSE LET newton == IF Len(Rec.it) = St.nit THEN "NewtonFailed" ELSE "NewtonWillNotConverge" IN
       IF amb'[2] > amb[2] THEN {"rejectedStep", newton}
       ELSE IF newt' # 0 THEN {"rejectedStep"}
       ELSE {newton}
Attempt ==
  LET s == Str(StepOf(Rec)) IN
  [kinds |-> Outcome, x0 |-> x, x |-> x', lo |-> s, hi |-> s, vals |-> <<<<s, s>>, <<hlo', hhi'>>>>]

Follow ==
  CASE Rec.e = "start" -> hist' = << >> /\ hok' = TRUE
    [] Rec.e = "att" -> IF pc = "try" /\ pc' # "lost" /\ Nxt.e \in {"begin", "att", "end"}
                        THEN hist' = Append(hist, Attempt) /\ hok' = hok
                        ELSE hist' = hist /\ hok' = FALSE
    [] Rec.e \in {"begin", "blur"} -> hist' = hist /\ hok' = (hok /\ pc' # "lost")
    [] OTHER -> UNCHANGED lvars

EndRec == IF Recs[l - 1].e = "end" THEN Recs[l - 1] ELSE Recs[l - 2]
TraceLog ==
  /\ IsRec("log")
  /\ Go /\ KeepControl /\ KeepNewton /\ UNCHANGED <<ls, lb, lj, ljb, hlo, hhi, first, nf, newt, amb, hop>> /\ UNCHANGED lvars
  /\ LET ini == [x0 |-> St.x, h0 |-> St.h, hend |-> EndRec.hlast, changes |-> TRUE, tail |-> TRUE]
         dg == [exact |-> Rec.exact, teps |-> 0, hrel |-> "1E-9", hulp |-> 4]
     IN bad' = bad \union Labels(ReadingWrong(Rec))
               \union (IF Rec.read /\ hok THEN Labels(LG!Wrong(Events(Rec), hist, ini, dg)) ELSE {})

LInit == TraceInit /\ hist = << >> /\ hok = TRUE
LNext == \/ l <= Len(Recs) /\ Rec.e # "log" /\ TraceNext /\ Follow
         \/ TraceLog
         \/ Done /\ UNCHANGED lvars
LSpec == LInit /\ [][LNext]_<<tvars, lvars>>
LConforms == Enforced(bad) = {}
=============================================================================
