---------------------------- MODULE SdirklMethod ----------------------------
(***************************************************************************)
(* What one step of Sdirkl does, for each method (I01).  A "trace" is the  *)
(* record of one method:                                                   *)
(*   p, q      Taylor coefficients of R and Q: a step is R(z) y + Q(z) w,  *)
(*             z = step * operator, w = step * forcing                     *)
(*   z, R, Q   values at many real z                                       *)
(*   zr, zi, cr, ci   complex values of R                                  *)
(*   s0, s1    affine steps from a stationary point                        *)
(***************************************************************************)
EXTENDS TraceLib, SdirklCoef

Objects == {1}
VARIABLES obj, pc, y0, stale, refused
INSTANCE Sdirkl WITH Plus <- Add, Minus <- Sub, Times <- Mul, Over <- Div
VARIABLES tr, l, bad
mvars == <<obj, pc, y0, stale, refused, tr, l, bad>>
Rec == Traces[tr][l]

\* complex numbers <<re, im>>
CAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
CSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2])>>
CMul(a, b) == <<Sub(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
CDiv(a, b) == LET n == Add(Mul(b[1], b[1]), Mul(b[2], b[2])) c == CMul(a, <<b[1], Opp(b[2])>>) IN <<Div(c[1], n), Div(c[2], n)>>
CRe(a) == <<a, 0>>
ComplexR(M, z) ==
  LET RECURSIVE K(_)
      K(i) == IF i = 0 THEN << >>
              ELSE LET p == K(i - 1)
                       RECURSIVE S(_)
                       S(j) == IF j = 0 THEN CRe(1) ELSE CAdd(S(j - 1), CMul(CRe(M.A[i][j]), p[j]))
                   IN Append(p, CDiv(CMul(z, S(i - 1)), CSub(CRe(1), CMul(CRe(M.g), z))))
      k == K(M.s)
      RECURSIVE T(_)
      T(j) == IF j = 0 THEN CRe(1) ELSE CAdd(T(j - 1), CMul(CRe(M.b[j]), k[j]))
  IN T(M.s)

Fact(k) == CASE k = 0 -> 1 [] k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 6 [] OTHER -> 24
\* the conditions of order o of the published tableau, for nonlinear problems too
C(M, i) == RowSum(M, i)
AA(M, i, j) == IF j < i THEN M.A[i][j] ELSE IF i = j THEN M.g ELSE 0
OrderConditions(M) ==
  LET s == M.s
      S1(f(_)) == Sum([i \in 1 .. s |-> f(i)], s)
      B(i) == M.b[i]
      AC(i) == S1(LAMBDA j : Mul(AA(M, i, j), C(M, j)))
      AC2(i) == S1(LAMBDA j : Mul(AA(M, i, j), PowI(C(M, j), 2)))
      AAC(i) == S1(LAMBDA j : Mul(AA(M, i, j), AC(j)))
      is(a, n, d) == Near(a, Div(n, d), "1E-25")
  IN /\ is(S1(B), 1, 1)
     /\ M.order >= 2 => is(S1(LAMBDA i : Mul(B(i), C(M, i))), 1, 2)
     /\ M.order >= 3 => /\ is(S1(LAMBDA i : Mul(B(i), PowI(C(M, i), 2))), 1, 3)
                        /\ is(S1(LAMBDA i : Mul(B(i), AC(i))), 1, 6)
     /\ M.order >= 4 => /\ is(S1(LAMBDA i : Mul(B(i), PowI(C(M, i), 3))), 1, 4)
                        /\ is(S1(LAMBDA i : Mul(B(i), Mul(C(M, i), AC(i)))), 1, 8)
                        /\ is(S1(LAMBDA i : Mul(B(i), AC2(i))), 1, 12)
                        /\ is(S1(LAMBDA i : Mul(B(i), AAC(i))), 1, 24)

Judge(T) ==
  LET M == Method(T.m)
      K == Len(T.z)
      plain == T.exc = 0 /\ VIsNum(T.p) /\ VIsNum(T.q) /\ VIsNum(T.R) /\ VIsNum(T.Q) /\ VIsNum(T.s1) /\ VIsNum(T.cr) /\ VIsNum(T.ci)
      order == \A k \in 0 .. M.order : Near(T.p[k + 1], Div(1, Fact(k)), "2E-13")
      forder == \A k \in 0 .. M.order - 1 : Near(T.q[k + 1], Div(1, Fact(k + 1)), "2E-13")
      values == \A i \in 1 .. K : Near(T.R[i], Direct(M, T.z[i], 0, 1), "2E-12")
      forced == \A i \in 1 .. K : Near(T.Q[i], Direct(M, T.z[i], 1, 0), "2E-12")
      cx == \A i \in 1 .. Len(T.zr) : LET r == ComplexR(M, <<T.zr[i], T.zi[i]>>) IN Near(T.cr[i], r[1], "2E-12") /\ Near(T.ci[i], r[2], "2E-12")
      \* the methods are A-stable
      stable == /\ \A i \in 1 .. K : Le(T.z[i], 0) => Le(Abs(T.R[i]), "1.00000000001")
                /\ \A i \in 1 .. Len(T.zr) : Le(Add(Mul(T.cr[i], T.cr[i]), Mul(T.ci[i], T.ci[i])), "1.00000000001")
      stays == \A i \in 1 .. K : Near(T.s1[i], T.s0[i], Mul("1E-13", Add(1, Abs(Mul(1, T.s0[i])))))
  IN (IF OrderConditions(M) THEN {} ELSE {<<"ALL", "order conditions of the specification">>})
     \union (IF ~plain THEN {<<"I01", "a step cannot be made">>, <<"I02", "a step cannot be made">>}
     ELSE UNION {
       Must(order, "I01", "order"),
       Must(forder, "I01", "order with a forcing term"),
       Must(values, "I01", "values of the stability function"),
       Must(forced, "I01", "contribution of the forcing term"),
       Must(cx, "I01", "complex values of the stability function"),
       Must(stable, "I01", "A-stability"),
       Must(stays, "I01", "a stationary point moves"),
       Must(T.applies = M.s, "I02", "number of solves")})

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ InitVars
Keep == UNCHANGED <<obj, pc, y0, stale, refused>>
TraceNext == \/ l <= Len(Traces[tr]) /\ l' = l + 1 /\ tr' = tr /\ Keep
                /\ bad' = bad \union (IF Rec.e = "method" THEN Judge(Rec) ELSE {<<"ALL", "crash or hang">>})
             \/ l > Len(Traces[tr]) /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_mvars
Conforms == Enforced(bad) = {}
=============================================================================
