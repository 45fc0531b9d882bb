----------------------------- MODULE RadauCoef -----------------------------
(* The three-stage Radau IIA method, its error estimate, and the scaled      *)
(* variables in which the convergence of Newton's iteration is measured      *)
(* (Hairer & Wanner, Solving Ordinary Differential Equations II, IV.8).      *)
EXTENDS Integers, Sequences, Num

LOCAL s6 == Sqrt(6)
LOCAL Q(a, b, c) == Str(Div(Add(a, Mul(b, s6)), c))      \* (a + b sqrt 6) / c
CR == <<Q(4, -1, 10), Q(4, 1, 10), 1>>
AR == << <<Q(88, -7, 360), Q(296, -169, 1800), Q(-2, 3, 225)>>,
         <<Q(296, 169, 1800), Q(88, 7, 360), Q(-2, -3, 225)>>,
         <<Q(16, -1, 36), Q(16, 1, 36), Q(1, 0, 9)>> >>
\* error estimate: gamma0 h f0 + e z, gamma0 = 1/U1
LOCAL c3 == "1.44224957030740838232163831078010958839"   \* 3^(1/3)
LOCAL c81 == Mul(3, c3)
LOCAL c9 == Mul(c3, c3)
U1 == Str(Div(30, Sub(Add(6, c81), c9)))
DD == <<Q(-13, -7, 3), Q(-13, 7, 3), Q(-1, 0, 3)>>
\* transformation to real Schur-like form, of which the published normalisation
\* defines the norm used in the convergence test
TR == << <<"9.1232394870892942792E-02", "-0.14125529502095420843", "-3.0029194105147424492E-02">>,
         <<"0.24171793270710701896", "0.20412935229379993199", "0.38294211275726193779">>,
         <<"0.96604818261509293619", 1, 0>> >>
TI == << <<"4.3255798900631553510", "0.33919925181580986954", "0.54177053993587487119">>,
         <<"-4.1787185915519047273", "-0.32768282076106238708", "0.47662355450055045196">>,
         <<"-0.50287263494578687595", "2.5719269498556054292", "-0.59603920482822492497">> >>

LOCAL r3 == 1 .. 3
LOCAL Small(a, b, tol) == Near(a, b, tol)
LOCAL Sum3(f(_)) == Add(f(1), Add(f(2), f(3)))
LOCAL MM(a, b) == [i \in r3 |-> [j \in r3 |-> LET t(k) == Mul(a[i][k], b[k][j]) IN Sum3(t)]]
LOCAL Id == [i \in r3 |-> [j \in r3 |-> IF i = j THEN 1 ELSE 0]]
LOCAL Same(a, b, tol) == \A i, j \in r3 : Small(a[i][j], b[i][j], tol)
\* collocation at the nodes: order 5, stage order 3
Cube == Near(PowI(c3, 3), 3, "1E-28")
Collocation == \A i \in r3, k \in r3 :
  LET t(j) == Mul(AR[i][j], PowI(CR[j], k - 1)) IN Small(Sum3(t), Div(PowI(CR[i], k), k), "1E-28")
Order5 == \A k \in 1 .. 5 : LET t(j) == Mul(AR[3][j], PowI(CR[j], k - 1)) IN Small(Sum3(t), Div(1, k), "1E-28")
Stiff == \A i \in r3 : Eq(AR[3][i], AR[3][i]) /\ CR[3] = 1
\* the error estimate vanishes on polynomials of degree three: it is of order three
EstimateOrder == \A k \in r3 :
  LET t(j) == Mul(DD[j], PowI(CR[j], k)) IN Small(Add(Sum3(t), IF k = 1 THEN 1 ELSE 0), 0, "1E-27")
\* T^-1 A^-1 T has one real eigenvalue and one complex pair: it is block diagonal,
\* that is A T B = T with B the inverse of the blocks
LOCAL al == Div(Add(Sub(12, c81), c9), 60)
LOCAL be == Div(Mul(Add(c81, c9), Sqrt(3)), 60)
Blocks == LET B == << <<Div(1, U1), 0, 0>>, <<0, al, be>>, <<0, Opp(be), al>> >>
          IN /\ Same(MM(TI, TR), Id, "1E-17")
             /\ Same(MM(MM(TI, AR), TR), B, "1E-17")
RadauConditions == Cube /\ Collocation /\ Order5 /\ Stiff /\ EstimateOrder /\ Blocks
=============================================================================
