------------------------------- MODULE MCLog --------------------------------
(* Small integrators which log what they do (as Radau5 and Rodas: changes of *)
(* the step; as Rock4: one event for each attempt), exhaustively.  Their     *)
(* logs are right; logs in which something was lost, repeated, exchanged or  *)
(* altered are wrong.  And the container.                                    *)
EXTENDS Integers, Sequences
CONSTANTS Steps, MaxAttempts, MaxEvents
VARIABLES L, A, x, h, ini, pc, box
vars == <<L, A, x, h, ini, pc, box>>
MWithin(v, lo, hi, xx, dg) == lo <= v /\ v <= hi
MSame(a, b, dg) == a = b
MEq(a, b) == a = b
MKnown(a) == TRUE
INSTANCE Log WITH Within <- MWithin, SameNumber <- MSame, Identical <- MEq, Known <- MKnown

Ev(t, n, e, v) == [t |-> t, n |-> n, ev |-> e, v |-> v]
Init ==
  /\ \E h0 \in Steps, ch \in BOOLEAN :
       /\ ini = [x0 |-> 0, h0 |-> h0, hend |-> 0, changes |-> ch, tail |-> TRUE]
       /\ h = h0 /\ L = (IF ch THEN <<Ev(0, 0, "changedH", h0)>> ELSE << >>)
  /\ A = << >> /\ x = 0 /\ pc = "begin" /\ box = << >>

\* the first step is changed before the first attempt
Clamp == /\ pc = "begin" /\ box = << >> /\ A = << >> /\ ini.changes
         /\ \E g \in Steps : h' = g /\ L' = Put(L, Ev(x, 0, "changedH", g))
         /\ pc' = "go" /\ UNCHANGED <<A, x, ini, box>>
Attempts == /\ pc \in {"begin", "go"} /\ box = << >> /\ Len(A) < MaxAttempts
            /\ LET n == Len(A) + 1 IN
               \/ \* accepted; the next step may be the same one
                  \E g \in Steps :
                    /\ A' = Append(A, [kinds |-> IF ini.changes THEN {} ELSE {"success"}, x0 |-> x, x |-> x + h, lo |-> h, hi |-> h, vals |-> << >>])
                    /\ x' = x + h /\ h' = g
                    /\ L' = IF ~ini.changes THEN Put(L, Ev(x + h, n, "success", g))
                            ELSE IF g = h THEN L ELSE Put(L, Ev(x + h, n, "changedH", g))
               \/ \* refused: another step
                  \E g \in Steps \ {h} :
                    \E k \in (IF ini.changes THEN {"rejectedStep", "NewtonFailed"} ELSE {"rejectedStep"}) :
                    /\ A' = Append(A, [kinds |-> {k}, x0 |-> x, x |-> x, lo |-> h, hi |-> h, vals |-> <<<<h, h>>, <<g, g>>>>])
                    /\ x' = x /\ h' = g
                    /\ LET e == Ev(x, n, k, h)
                           c == Ev(x, n, "changedH", g)
                       IN L' = IF ~ini.changes THEN Put(L, e) ELSE IF k = "rejectedStep" THEN Put(Put(L, e), c) ELSE Put(Put(L, c), e)
            /\ pc' = "go" /\ UNCHANGED <<ini, box>>
\* the end: the step which would be used
Finish == /\ pc = "go" /\ pc' = "end" /\ ini' = [ini EXCEPT !.hend = h] /\ UNCHANGED <<L, A, x, h, box>>
\* the container on its own
Use == /\ pc = "begin" /\ ini.changes = FALSE /\ ini.h0 = 1 /\ Len(box) < MaxEvents
       /\ \/ \E k \in Kinds, v \in Steps : box' = Put(box, Ev(v, Len(box), k, v))
          \/ box' = Empty
       /\ UNCHANGED <<L, A, x, h, ini, pc>>
Next == Clamp \/ Attempts \/ Finish \/ Use
Spec == Init /\ [][Next]_vars

AtEnd == pc = "end"
Right == AtEnd => Wrong(L, A, ini, 0) = {}
\* alterations
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Twice(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
Exchanged(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
Bad(s) == Wrong(s, A, ini, 0) # {}
Sensitive ==
  AtEnd => \A i \in 1 .. Len(L) :
    /\ L[i].ev # "changedH" => Bad(Without(L, i)) /\ Bad(Twice(L, i))
    /\ L[i].ev = "changedH" /\ L[i].n > 0 => Bad(Without(L, i)) /\ Bad(Twice(L, i))
    /\ Bad([L EXCEPT ![i].t = @ + 1])
    /\ (L[i].ev = "changedH" /\ (i = Len(L) \/ L[i + 1].n # L[i].n) => Bad([L EXCEPT ![i].v = @ + 1]))
    /\ i < Len(L) /\ L[i].n # L[i + 1].n => Bad(Exchanged(L, i))
    /\ (L[i].ev # "changedH" => Bad([L EXCEPT ![i].n = @ + 1]) /\ Bad([L EXCEPT ![i].n = @ - 1]))
    /\ (L[i].ev # "changedH" => \A k \in Kinds \ {L[i].ev} : Bad([L EXCEPT ![i].ev = k]))
\* the log of something else is not accepted: an integration which made another attempt
Complete == AtEnd => /\ \A i \in 1 .. Len(A) : A[i].kinds # {} => Wrong(L, Without(A, i), ini, 0) # {}
                     /\ \A i \in 1 .. Len(A) : A[i].kinds # {} => Wrong(L, Twice(A, i), ini, 0) # {}
Reading ==
  /\ \A k \in Kinds : \A i \in 1 .. Len(Lines(box, k)) : Lines(box, k)[i].no = i /\ Lines(box, k)[i].ev = k
  /\ Len(Lines(box, "all")) = Len(box)
  /\ \A i \in 1 .. Len(box) : Lines(box, "all")[i].n = box[i].n /\ Lines(box, "all")[i].v = box[i].v
  /\ LET Sz(k) == Len(Lines(box, k)) IN Len(box) = Sz("success") + Sz("rejectedStep") + Sz("NewtonFailed") + Sz("NewtonWillNotConverge") + Sz("changedH")
  /\ \A k \in Kinds : \A i, j \in 1 .. Len(Lines(box, k)) : i < j => Lines(box, k)[i].n < Lines(box, k)[j].n
=============================================================================
