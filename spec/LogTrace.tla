------------------------------ MODULE LogTrace ------------------------------
(* Recorded uses of a log against Log.                                      *)
EXTENDS TraceLib
VARIABLES L, tr, l, bad
tvars == <<L, tr, l, bad>>
TW(v, lo, hi, x, dg) == TRUE
TS(a, b, dg) == Eq(a, b)
INSTANCE Log WITH Within <- TW, SameNumber <- TS, Identical <- Eq, Known <- IsNum
Recs == Traces[tr]
Rec == Recs[l]
Is(e) == l <= Len(Recs) /\ Rec.e = e
Step(b) == l' = l + 1 /\ tr' = tr /\ bad' = bad \union b
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ L = Empty
TracePut == Is("put") /\ L' = Put(L, [t |-> Rec.t, n |-> Rec.n, ev |-> KindOrder[Rec.k], v |-> Rec.v]) /\ Step({})
TraceAgain == Is("again") /\ L # Empty /\ L' = Put(L, L[Len(L)]) /\ Step({})
\* events number 1 to count, whose times and values are their numbers
TraceBurst == Is("burst") /\ L' = L \o [i \in 1 .. Rec.count |-> [t |-> i, n |-> i, ev |-> KindOrder[Rec.k], v |-> i]] /\ Step({})
TraceClear == Is("clear") /\ L' = Empty /\ Step({})
\* a line, as written
Same(a, b) == /\ a.no = b.no /\ a.n = b.n /\ a.ev = b.ev /\ Eq(a.t, b.t)
              /\ IF b.ev \in {"changedH", "rejectedStep"} THEN Eq(a.v, b.v) ELSE a.v = "nan"
Agree(T, k) == LET W == Lines(L, k) IN Len(T) = Len(W) /\ \A i \in 1 .. Len(W) : Same(T[i], W[i])
TraceRead == /\ Is("read") /\ L' = L
             /\ Step(IF ~Rec.read THEN {<<"G01", "text of the log">>}
                     ELSE Must(Agree(Rec.lines, KindOrder[Rec.k]), "G01", "events read"))
TraceOther == l <= Len(Recs) /\ Rec.e \notin {"put", "clear", "read", "again", "burst"} /\ L' = L /\ Step({<<"ALL", "crash or hang">>})
Finished == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TracePut \/ TraceAgain \/ TraceBurst \/ TraceClear \/ TraceRead \/ TraceOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {}
=============================================================================
