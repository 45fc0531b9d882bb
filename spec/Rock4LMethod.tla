---------------------------- MODULE Rock4LMethod ----------------------------
(***************************************************************************)
(* What one step of Rock4L does, for every degree (L01).  A "trace" is the *)
(* record of one degree:                                                   *)
(*   p, p0   coefficients of the polynomial applied to the solution, by    *)
(*           the linear solver, by the affine one with a null constant     *)
(*   q       coefficients of the polynomial applied to step times constant *)
(*   z, R, Q values R(z) of p and Q(z) of q for many z, with another step  *)
(*   y0, hb, y1    affine steps from y0 with constant hb / h, at the z's   *)
(*   s0, s1        affine steps from a stationary point                    *)
(*   full, diag    a matrix which is not diagonal, its eigenvalues         *)
(***************************************************************************)
EXTENDS TraceLib

VARIABLES tr, l, bad
Rec == Traces[tr][l]

Poly(p, m, z) == \* Horner, coefficients p[1] .. p[m+1]
  LET RECURSIVE go(_, _)
      go(i, a) == IF i = 0 THEN a ELSE go(i - 1, Add(Mul(a, z), p[i]))
  IN go(m, p[m + 1])
\* rounding errors: the finishing stages are a polynomial of degree four in step
\* times operator, with large values which the recurrence compensates
Round4(z, m) == Mul("1E-15", Add(10 + m * m, PowI(Abs(z), 4)))
Taylor == <<1, 1, Div(1, 2), Div(1, 6), Div(1, 24)>>

Judge(T) ==
  LET m == T.d + 4
      K == Len(T.z)
      plain == T.exc = 0 /\ Len(T.p) >= m + 4 /\ Len(T.p0) = Len(T.p) /\ Len(T.q) = Len(T.p)
               /\ Len(T.R) = K /\ Len(T.Q) = K /\ Len(T.y1) = K /\ Len(T.s1) = K
      order4 == \A k \in 1 .. 5 : Near(T.p[k], Taylor[k], "1E-12")
      degree == (\A k \in m + 2 .. Len(T.p) : Eq(T.p[k], 0) /\ Eq(T.p0[k], 0) /\ Eq(T.q[k - 1], 0)) /\ Eq(T.q[Len(T.q)], 0)
      same(a, b) == Near(a, b, "1E-12")
      affine == \A k \in 1 .. m + 1 : same(T.p0[k], T.p[k]) /\ (k > 1 => same(T.q[k - 1], T.p[k]))
      bounded == \A i \in 1 .. K : Le(Abs(T.R[i]), "1.00000001")
      \* for small z the polynomial tells the values
      values == \A i \in 1 .. K : Le(Abs(T.z[i]), 6) => Near(T.R[i], Poly(T.p, m, T.z[i]), "1E-9")
      exps == \A i \in 1 .. K : Le(Abs(T.z[i]), "1.5") =>
                LET z == T.z[i]
                    ex == Add(1, Mul(z, Add(1, Mul(Div(z, 2), Add(1, Mul(Div(z, 3), Add(1, Div(z, 4))))))))
                IN Le(Abs(Sub(T.R[i], ex)), Add("1E-12", Abs(PowI(z, 5))))
      added == \A i \in 1 .. K : Near(T.Q[i], Div(Sub(T.R[i], 1), T.z[i]), Round4(T.z[i], m))
      moved == \A i \in 1 .. K :
                 Near(T.y1[i], Add(Mul(T.R[i], T.y0[i]), Mul(T.Q[i], T.hb[i])), Mul(Round4(T.z[i], m), Add(Abs(T.hb[i]), Abs(T.y0[i]))))
      stays == \A i \in 1 .. K : Near(T.s1[i], T.s0[i], Mul(Mul(Round4(T.z[i], m), Abs(T.s0[i])), Add(1, Mul("0.2", Abs(T.z[i])))))
      matrix == /\ Near(T.full[1], Div(Add(T.diag[1], T.diag[2]), 2), "1E-7")
                /\ Near(T.full[2], Div(Sub(T.diag[1], T.diag[2]), 2), "1E-7")
  IN IF ~plain THEN {<<"L01", "a step cannot be made">>, <<"L02", "a step cannot be made">>}
     ELSE UNION {
       Must(order4, "L01", "order four"),
       Must(degree, "L01", "degree of the polynomials"),
       Must(affine, "L01", "polynomial of the affine problem"),
       Must(bounded, "L01", "bounded by one on the interval"),
       Must(values, "L01", "values of the polynomial"),
       Must(exps, "L01", "the polynomial near zero"),
       Must(added, "L01", "contribution of the constant"),
       Must(moved, "L01", "affine step"),
       Must(stays, "L01", "a stationary point moves"),
       Must(matrix, "L01", "matrix which is not diagonal"),
       Must(T.alias = 0, "L01", "an argument is overwritten while it is read"),
       Must(T.calls = m, "L02", "number of calls")}

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
TraceNext == \/ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr /\ bad' = bad \union (IF Rec.e = "table" THEN Judge(Rec) ELSE {<<"ALL", "no table">>})
             \/ l > Len(Traces[tr]) /\ UNCHANGED <<tr, l, bad>>
TraceSpec == TraceInit /\ [][TraceNext]_<<tr, l, bad>>
Conforms == Enforced(bad) = {}
=============================================================================
