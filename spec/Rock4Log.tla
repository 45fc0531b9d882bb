------------------------------ MODULE Rock4Log ------------------------------
(* The log of the integrations of Rock4Trace: it goes on from one           *)
(* integration to the next, until the user clears it.                       *)
EXTENDS Rock4Trace, LogReal
VARIABLES hist, hok, llog    \* llog: position of the previous reading (0: none)
lvars == <<hist, hok, llog>>
Attempt ==
  LET acc == nacc' > nacc
      s == Str(Rec.h)
  IN [kinds |-> IF acc THEN {"success"} ELSE {"rejectedStep"}, x0 |-> t, x |-> t', lo |-> s, hi |-> s,
      vals |-> <<<<s, s>>, <<hlo', hhi'>>, <<Str(Div(hlo', "0.8")), Str(Div(hhi', "0.8"))>>>>]
Follow ==
  CASE Rec.e = "start" -> hist' = << >> /\ hok' = TRUE /\ llog' = llog
    [] Rec.e = "try" -> /\ hist' = Append(hist, Attempt)
                        /\ hok' = (hok /\ pc # "lost" /\ pc' # "lost") /\ llog' = llog
    [] Rec.e = "blur" -> hist' = hist /\ hok' = FALSE /\ llog' = llog
    [] OTHER -> UNCHANGED lvars
TraceLog ==
  /\ IsRec("log")
  /\ Go /\ KeepControl /\ UNCHANGED extra /\ UNCHANGED <<hist, hok>> /\ llog' = l
  /\ LET ini == [x0 |-> St.t, h0 |-> St.h, hend |-> "nan", changes |-> FALSE, tail |-> FALSE]
         big == Add(Abs(St.t), Abs(St.tend))
         dg == [exact |-> Rec.exact, teps |-> Add(Mul("2E-8", Abs(Sub(St.tend, St.t))), Mul(1000, Ulp(big))), hrel |-> "1E-7", hulp |-> 100]
         old == IF llog = 0 \/ Rec.cleared THEN << >> ELSE Events(Recs[llog])
         E == Events(Rec)
         k == Len(old)
     IN bad' = bad \union Labels(ReadingWrong(Rec))
               \union (IF Rec.read /\ ~(Len(E) >= k /\ SubSeq(E, 1, k) = old) THEN Labels({"events of an earlier integration"}) ELSE {})
               \union (IF Rec.read /\ hok /\ Len(E) >= k THEN Labels(LG!Wrong(SubSeq(E, k + 1, Len(E)), hist, ini, dg)) ELSE {})
LInit == TraceInit /\ hist = << >> /\ hok = TRUE /\ llog = 0
LNext == \/ l <= Len(Recs) /\ Rec.e # "log" /\ TraceNext /\ Follow
         \/ TraceLog
         \/ Done /\ UNCHANGED lvars
LSpec == LInit /\ [][LNext]_<<tvars, lvars>>
LConforms == Enforced(bad) = {}
=============================================================================
