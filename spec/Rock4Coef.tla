----------------------------- MODULE Rock4Coef -----------------------------
(***************************************************************************)
(* The coefficients of the method for every degree, recovered from the     *)
(* code (the harness integrates with right-hand sides which are unit       *)
(* vectors), one record per degree, in the file TABLES:                    *)
(*   d   degree; the step makes d + 4 evaluations after F(y)               *)
(*   A   A[k][j]: weight of evaluation j-1 in the argument of evaluation k *)
(*       (evaluation 0 is F(y)); the argument of the last one is the new   *)
(*       solution                                                          *)
(*   w   next step when only some evaluations contribute to the error      *)
(*   stab values R(z) of the stability polynomial                          *)
(* Their validity is judged by module Rock4Method.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, Num

Tables == JsonDeserialize(IOEnv.TABLES)
Degrees == {Tables[q].d : q \in 1 .. Len(Tables)}
IndexOf(d) == CHOOSE q \in 1 .. Len(Tables) : Tables[q].d = d

\* ---- weights of the error estimate, of the last five evaluations -----------
\* With one answer 1 in two unknowns, absolute tolerance a: the error is
\* |e| / a / sqrt 2, and the next step is 0.8 error^(-1/4) (the first was 1).
Shown(w) == Mul(Mul(PowI(Div("0.8", w.ratio), 4), w.atol), Sqrt(2))
\* signs: those of the products with the first
ErrWeights(T) ==
  LET e == [j \in 1 .. 5 |-> Shown(T.w[j])]
      same(j) == LET p == Shown(T.w[4 + j]) IN
                 Lt(Abs(Sub(p, Add(e[1], e[j]))), Abs(Sub(p, Abs(Sub(e[1], e[j])))))
  IN [j \in 1 .. 5 |-> Str(IF j = 1 \/ same(j) THEN e[j] ELSE Opp(e[j]))]
\* consistency: what the pairs show is explained by these weights
PairsExplained(T) ==
  LET e == ErrWeights(T) IN
  \A j \in 2 .. 5 : Near(Shown(T.w[4 + j]), Abs(Add(e[1], e[j])), "1E-11")

\* ---- coefficients of the recurrence and of the finishing stages --------------
MuOf(T) == [k \in 1 .. T.d |-> T.A[k][k]]
T2Of(T) == [k \in 1 .. T.d |-> IF k = 1 THEN 1 ELSE Str(Div(T.A[k][k - 1], T.A[k - 1][k - 1]))]
FinOf(T) == [i \in 1 .. 4 |-> [j \in 1 .. i |-> T.A[T.d + i][T.d + j]]]
=============================================================================
