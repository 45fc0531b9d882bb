----------------------------- MODULE SymplMethod ----------------------------
(***************************************************************************)
(* The coefficients of SymplecticRK, for one number of stages and one      *)
(* precision, as they act on the right-hand side's values.  Record table:  *)
(*   b, a     increments and stages, step 1       (unit vectors as values) *)
(*   q        extrapolation of starting values                             *)
(*   h, hb, ha   the same with another step                                *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES tr, l, bad
mvars == <<tr, l, bad>>
Rec == Traces[tr][l]

Judge(T) ==
  LET s == T.s
      eps == IF T.prec = "double" THEN "2.3E-16" ELSE "1.1E-19"
      tol == Mul(eps, 2 * s + 4)
      A == Mat(T.a)
      b == Vec(T.b)
      c == Vec([i \in 1 .. s |-> VSum(A[i])])
      Power(k) == [i \in 1 .. s |-> PowI(c[i], k)]
      plain == T.ok /\ VIsNum(b) /\ VIsNum(T.hb) /\ \A i \in 1 .. s : VIsNum(T.a[i]) /\ VIsNum(T.q[i]) /\ VIsNum(T.ha[i])
      \* the stages may be in any order
      nodes == \A i \in 1 .. s : Lt(0, c[i]) /\ Lt(c[i], 1) /\ \A j \in 1 .. i - 1 : Lt("1E-3", Abs(Sub(c[j], c[i])))
      order == \A k \in 1 .. 2 * s : Near(Dot(b, Power(k - 1)), Div(1, k), tol)
      collocation == \A k \in 1 .. s : VNear(MatVec(A, Power(k - 1)), VScale(Div(1, k), Power(k)), tol)
      symplectic == \A i, j \in 1 .. s :
        i <= j => Near(Add(Mul(b[i], A[i][j]), Mul(b[j], A[j][i])), Mul(b[i], b[j]), Mul(eps, 4))
      symmetric == \A i \in 1 .. s : \E j \in 1 .. s : Near(Add(c[i], c[j]), 1, tol) /\ Near(b[i], b[j], Mul(eps, 4))
      scaledb == \A i \in 1 .. s : Close(T.hb[i], Mul(T.h, b[i]), Mul(eps, 3))
      scaleda == \A i, j \in 1 .. s : Close(T.ha[i][j], Mul(T.h, A[i][j]), Mul(eps, 3))
      \* the polynomial of degree s - 1 through the values, integrated from 0 to 1 + c
      extrapolation == \A k \in 1 .. s :
        LET e == MatVec(T.q, Power(k - 1)) IN
        \A i \in 1 .. s : Near(e[i], Div(PowI(Add(1, c[i]), k), k), Mul("1E-11", Add(1, VSum(VAbs(T.q[i])))))
  IN IF ~plain THEN {<<"ALL", "a step with constant values fails">>}
     ELSE Must(nodes, "S02", "the nodes are not those of a quadrature formula")
          \union Must(order, "S02", "quadrature conditions up to order 2s")
          \union Must(collocation, "S02", "collocation conditions")
          \union Must(symplectic, "S02", "symplecticity condition")
          \union Must(symmetric, "S02", "symmetry of the method")
          \union Must(scaledb /\ scaleda, "S03", "coefficients are not those of the step")
          \union Must(extrapolation, "S03", "extrapolation of the collocation polynomial")

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == \/ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr
                /\ bad' = bad \union (IF Rec.e = "table" THEN Judge(Rec) ELSE {<<"ALL", "crash or hang">>})
             \/ l > Len(Traces[tr]) /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_mvars
Conforms == Enforced(bad) = {}
=============================================================================
