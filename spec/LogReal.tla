------------------------------ MODULE LogReal -------------------------------
(* Logs written by real integrations. dg: exact, whether all digits are     *)
(* written; teps, uncertainty of the times deduced; hrel, of the steps.     *)
EXTENDS Integers, Sequences, Num
\* what six decimals lose (or six digits)
Lossy(dg, a) == IF dg.exact THEN 0 ELSE Add("1.1E-6", Mul("1E-5", Abs(a)))
RealSame(a, b, dg) ==
  \/ ~IsNum(b)
  \/ Near(a, b, Add(Add(Mul("1E-15", Abs(b)), dg.teps), Lossy(dg, b)))
RealWithin(v, lo, hi, xx, dg) ==
  \/ ~IsNum(lo) \/ ~IsNum(hi)
  \/ LET a == Min2(lo, hi)
         b == Max2(lo, hi)
         m == Max2(Abs(lo), Abs(hi))
         eps == Add(Add(Mul(dg.hrel, m), Mul(dg.hulp, Ulp(Add(Abs(xx), m)))), Lossy(dg, m))
     IN Le(Sub(a, eps), v) /\ Le(v, Add(b, eps))
LG == INSTANCE Log WITH Within <- RealWithin, SameNumber <- RealSame, Identical <- Eq, Known <- IsNum

\* readings of the log: filtered, numbered, repeated
Events(r) == [i \in 1 .. Len(r.all) |-> [t |-> r.all[i].t, n |-> r.all[i].n, ev |-> r.all[i].ev, v |-> r.all[i].v]]
ReadingWrong(r) ==
  IF ~r.read THEN {"text of the log"}
  ELSE (IF r.same THEN {} ELSE {"reading changes the log"})
       \union (IF r.all = LG!Lines(Events(r), "all") THEN {} ELSE {"numbers of the events"})
       \union (IF \A k \in 1 .. 6 : r.by[k] = LG!Lines(Events(r), LG!KindOrder[k]) THEN {} ELSE {"selected events"})
Labels(S) == {<<"G01", w>> : w \in S}
=============================================================================
