---------------------------- MODULE Rock4Method ----------------------------
(***************************************************************************)
(* The method found in the code is ROCK4, for every degree (K05).          *)
(* A "trace" is the table of one degree.                                   *)
(***************************************************************************)
EXTENDS TraceLib, Rock4Coef

VARIABLES tr, l, bad
Rec == Traces[tr][l]

Eps == "1E-11"
Zero(v) == Near(v, 0, Eps)
Is(v, p, q) == Near(v, Div(p, q), Eps)
Judge(T) ==
  LET m == T.d + 4
      \* square matrix of the m evaluations 0 .. m-1, and the weights b
      full == Mat([k \in 1 .. m |-> IF k = 1 THEN Zeros(m)
                                    ELSE [j \in 1 .. m |-> IF j < k THEN T.A[k - 1][j] ELSE 0]])
      b == Vec(T.A[m])
      one == [i \in 1 .. m |-> 1]
      c == Vec(MatVec(full, one))
      c2 == Vec(VMulC(c, c))
      c3 == Vec(VMulC(c2, c))
      Ac == Vec(MatVec(full, c))
      Ac2 == Vec(MatVec(full, c2))
      AAc == Vec(MatVec(full, Ac))
      order4 == /\ Is(VSum(b), 1, 1) /\ Is(Dot(b, c), 1, 2)
                /\ Is(Dot(b, c2), 1, 3) /\ Is(Dot(b, Ac), 1, 6)
                /\ Is(Dot(b, c3), 1, 4) /\ Is(Dot(b, VMulC(c, Ac)), 1, 8)
                /\ Is(Dot(b, Ac2), 1, 12) /\ Is(Dot(b, AAc), 1, 24)
      \* the error: evaluations m-4 .. m; the last one is at the new solution,
      \* whose row is b (sum 1)
      e == ErrWeights(T)
      cl(j) == IF j = 5 THEN VSum(b) ELSE c[m - 4 + j]
      Acl(j) == IF j = 5 THEN Dot(b, c) ELSE Ac[m - 4 + j]
      order3 == /\ PairsExplained(T)
                /\ Zero(VSum(e)) /\ Zero(VSum([j \in 1 .. 5 |-> Mul(e[j], cl(j))]))
                /\ Zero(VSum([j \in 1 .. 5 |-> Mul(e[j], Mul(cl(j), cl(j)))]))
                /\ Zero(VSum([j \in 1 .. 5 |-> Mul(e[j], Acl(j))]))
      \* of order three and no more: something is estimated
      estimates == /\ Lt("1E-7", Abs(VSum([j \in 1 .. 5 |-> Mul(e[j], Mul(cl(j), Mul(cl(j), cl(j))))])))
                   /\ Le(Shown(T.w[10]), "1E-8")
      \* three-term recurrence
      mu == MuOf(T)
      t2 == T2Of(T)
      row(k) == IF k = 0 THEN Zeros(T.d) ELSE [j \in 1 .. T.d |-> IF j <= k THEN T.A[k][j] ELSE 0]
      recurN == \A k \in 2 .. T.d : LET r == VAdd(VAdd(VScale(t2[k], row(k - 1)), VScale(Sub(1, t2[k]), row(k - 2))),
                                    [j \in 1 .. T.d |-> IF j = k THEN mu[k] ELSE 0])
                                  IN VNear(row(k), r, Eps)
      \* finishing stages start from the last term
      finish == \A i \in 1 .. 4 : \A j \in 1 .. T.d : Near(T.A[T.d + i][j], T.A[T.d][j], Eps)
      cOk == \A k \in 1 .. m : Near(T.c[k], VSum(T.A[k]), Eps)
      \* stability: at most one on the interval, close to the exponential near 0
      stable == \A s \in 1 .. Len(T.stab) :
                  LET S == T.stab[s] IN
                  Len(S.R) = Len(S.z) /\ \A i \in 1 .. Len(S.R) : Le(Abs(S.R[i]), "1.00000001")
      exps == \A s \in 1 .. Len(T.stab) :
                  LET S == T.stab[s] IN
                  \A i \in 1 .. S.small :
                     LET z == S.z[i]
                         ex == Add(1, Mul(z, Add(1, Mul(Div(z, 2), Add(1, Mul(Div(z, 3), Add(1, Div(z, 4))))))))
                     IN Le(Abs(Sub(S.R[i], ex)), Add("1E-12", Abs(PowI(z, 5))))
  IN Must(\A k \in 1 .. m : Len(T.A[k]) = k, "K05", "an argument depends on a later evaluation")
     \union (IF \A k \in 1 .. m : Len(T.A[k]) = k THEN
       Must(order4, "K05", "conditions of order four")
       \union Must(order3, "K05", "conditions of order three of the error estimate")
       \union Must(estimates, "K05", "the error estimate")
       \union Must(recurN, "K05", "three-term recurrence")
       \union Must(finish, "K05", "finishing stages")
       \union Must(cOk, "K05", "times of the stages")
       \union Must(stable, "K05", "stability on the interval")
       \union Must(stable, "K03", "stability on the interval")
       \union Must(exps, "K05", "the stability polynomial near zero") ELSE {})

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == \/ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr /\ bad' = bad \union (IF Rec.e = "table" THEN Judge(Rec) ELSE {<<"ALL", "no table">>})
             \/ l > Len(Traces[tr]) /\ UNCHANGED <<tr, l, bad>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, bad>>
Conforms == Enforced(bad) = {}
=============================================================================
