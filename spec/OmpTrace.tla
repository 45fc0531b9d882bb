------------------------------ MODULE OmpTrace ------------------------------
(***************************************************************************)
(* Parallel regions of Rock4 as recorded, access by access, against module *)
(* OmpLoop; and the results of integrations with several threads against   *)
(* those of the serial build (K06).  Records: region (a list of accesses), *)
(* result (what the parallel build and the serial build give).             *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES phase, size, seen, written, read
INSTANCE OmpLoop
VARIABLES tr, l, j, bad
tvars == <<phase, size, seen, written, read, tr, l, j, bad>>
Recs == Traces[tr]
Rec == Recs[l]
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ j = 0 /\ bad = {} /\ InitLoop

TraceBegin == IsRec("region") /\ j = 0 /\ Begin(Rec.n) /\ j' = 1 /\ UNCHANGED <<tr, l, bad>>
TraceAccess ==
  /\ IsRec("region") /\ j > 0 /\ j <= Len(Rec.acc) /\ j' = j + 1
  /\ LET a == Rec.acc[j] IN IF a[2] = "b" THEN Barrier ELSE Access(a[1], a[2], a[3], a[4], a[5])
  /\ bad' = bad \union Must(RaceFree', "K06", "conflicting accesses of two threads")
  /\ UNCHANGED <<tr, l>>
TraceEnd ==
  /\ IsRec("region") /\ j > Len(Rec.acc) /\ End /\ j' = 0 /\ l' = l + 1
  /\ bad' = bad \union Must(WritesOnce, "K06", "an element is not written by exactly one thread")
                \union Must(ReadsAll, "K06", "an element does not contribute to the sum")
  /\ UNCHANGED tr
TraceResult ==
  /\ IsRec("result") /\ l' = l + 1
  /\ LET p == Rec.par
         s == Rec.ser
     IN bad' = bad \union Must(p.exc = s.exc /\ p.nsteps = s.nsteps /\ p.nacc = s.nacc /\ p.nrej = s.nrej /\ p.nf = s.nf /\ p.nst = s.nst,
                               "K06", "statistics differ from those of the serial build")
                   \union Must(VNear(p.y, s.y, Mul("1E-9", Add(1, NormInf(s.y)))), "K06", "solution differs from that of the serial build")
  /\ UNCHANGED <<phase, size, seen, written, read, tr, j>>
TraceCrash == IsRec("crash") /\ l' = l + 1 /\ bad' = bad \union {<<"K06", "crash or hang">>} /\ UNCHANGED <<phase, size, seen, written, read, tr, j>>
Done == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceBegin \/ TraceAccess \/ TraceEnd \/ TraceResult \/ TraceCrash \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {}
=============================================================================
