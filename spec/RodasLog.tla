------------------------------ MODULE RodasLog ------------------------------
(* The log of the integrations of RodasTrace.                               *)
EXTENDS RodasTrace, LogReal
VARIABLES hist, hok
lvars == <<hist, hok>>
Attempt ==
  LET s == Str(Sub(Rec.s[5].t, x)) IN
  [kinds |-> IF pc' # "try" THEN {} ELSE {"rejectedStep"}, x0 |-> x, x |-> x', lo |-> s, hi |-> s, vals |-> <<<<s, s>>, <<hlo', hhi'>>>>]
Follow ==
  CASE Rec.e = "start" -> hist' = << >> /\ hok' = TRUE
    [] Rec.e = "try" -> IF pc = "try" /\ Nxt.e \in {"begin", "try", "end"}
                        THEN hist' = Append(hist, Attempt) /\ hok' = hok
                        ELSE hist' = hist /\ hok' = FALSE
    [] OTHER -> UNCHANGED lvars
EndRec == IF Recs[l - 1].e = "end" THEN Recs[l - 1] ELSE Recs[l - 2]
TraceLog ==
  /\ IsRec("log")
  /\ Go /\ KeepControl /\ UNCHANGED <<ls, lb, hlo, hhi, first>> /\ UNCHANGED lvars
  /\ LET ini == [x0 |-> St.x, h0 |-> St.h, hend |-> EndRec.hlast, changes |-> TRUE, tail |-> FALSE]
         dg == [exact |-> Rec.exact, teps |-> 0, hrel |-> "1E-9", hulp |-> 4]
     IN bad' = bad \union Labels(ReadingWrong(Rec))
               \union (IF Rec.read /\ hok THEN Labels(LG!Wrong(Events(Rec), hist, ini, dg)) ELSE {})
LInit == TraceInit /\ hist = << >> /\ hok = TRUE
LNext == \/ l <= Len(Recs) /\ Rec.e # "log" /\ TraceNext /\ Follow
         \/ TraceLog
         \/ Done /\ UNCHANGED lvars
LSpec == LInit /\ [][LNext]_<<tvars, lvars>>
LConforms == Enforced(bad) = {}
=============================================================================
