------------------------------- MODULE LogGen -------------------------------
(* Uses of a log, written as scripts for the harness. Times and values are  *)
(* in 64ths, so that six decimals write them exactly.                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Length
VARIABLES L, hist, out
GW(v, lo, hi, x, dg) == TRUE
GS(a, b, dg) == TRUE
GE(a, b) == a = b
GK(a) == TRUE
INSTANCE Log WITH Within <- GW, SameNumber <- GS, Identical <- GE, Known <- GK
One(S) == {RandomElement(S)}
Numbers == (-130 .. 130) \union {-64000001, 6400000, 123456789}
Op(o) == hist' = Append(hist, o) /\ out' = out
GInit == L = Empty /\ hist = << >> /\ out = FALSE
GNext ==
  \/ /\ Len(hist) < Length
     /\ \/ \E t \in One(Numbers), v \in One(Numbers), n \in One(0 .. 40), k \in One(1 .. 5) :
             L' = Put(L, [t |-> t, n |-> n, ev |-> KindOrder[k], v |-> v]) /\ Op(<<"put", t, n, k, v>>)
        \/ \E t \in One(Numbers), v \in One(Numbers), n \in One(0 .. 40), k \in One({2, 5}) :
             L' = Put(L, [t |-> t, n |-> n, ev |-> KindOrder[k], v |-> v]) /\ Op(<<"put", t, n, k, v>>)
        \/ \E k \in One(1 .. 6) : UNCHANGED L /\ Op(<<"read", k>>)
        \/ UNCHANGED L /\ Op(<<"stream">>)
        \/ \* the same event again
           /\ L # Empty /\ L' = Put(L, L[Len(L)]) /\ Op(<<"again">>)
        \/ \* many events
           /\ RandomElement(1 .. 3) = 1
           /\ \E c \in One({2, 5, 100, 600}), k \in One(1 .. 5) :
                L' = L \o [i \in 1 .. c |-> [t |-> i, n |-> i, ev |-> KindOrder[k], v |-> i]] /\ Op(<<"burst", c, k>>)
        \/ RandomElement(1 .. 4) = 1 /\ L' = Empty /\ Op(<<"clear">>)
  \/ /\ Len(hist) = Length /\ ~out /\ out' = TRUE /\ PrintT(<<"SCRIPT", hist>>) /\ UNCHANGED <<L, hist>>
GSpec == GInit /\ [][GNext]_<<L, hist, out>>
=============================================================================
