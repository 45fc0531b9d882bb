-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real numbers for the specifications.                                    *)
(*                                                                         *)
(* A number is an Int, a decimal string (the exact value of a machine      *)
(* number read in a trace, where "0.1d" is the binary64 number nearest to    *)
(* 0.1), or the result of one of these operators.  TLC                      *)
(* evaluates them with the Java class Num (double-double arithmetic);   *)
(* the definitions below give their meaning on the integers, and are what  *)
(* TLC uses where an operator is not overridden.  Infinities and NaN are   *)
(* one value, "nan", for which every comparison is FALSE.                  *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

D(a) == a
Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
Div(a, b) == a \div b
Opp(a) == -a
Abs(a) == IF a < 0 THEN -a ELSE a
Sqrt(a) == CHOOSE r \in 0 .. a : r * r <= a /\ (r + 1) * (r + 1) > a
Root4(a) == Sqrt(Sqrt(a))
Pow(a, b) == a ^ b
PowI(a, k) == a ^ k
Cos(a) == 1
Lt(a, b) == a < b
Le(a, b) == a <= b
Eq(a, b) == a = b
IsNum(a) == a # "nan"
Sgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
Floor(a) == a
Ulp(a) == 1                     \* spacing of binary64 numbers near a
Fl(a) == a                      \* nearest binary64 number
Str(a) == a                     \* decimal string, to be kept in a state
StrV(a) == a
VAdd(a, b) == [i \in 1 .. Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1 .. Len(a) |-> a[i] - b[i]]
VScale(c, a) == [i \in 1 .. Len(a) |-> c * a[i]]
VAxpy(c, b, a) == [i \in 1 .. Len(a) |-> a[i] + c * b[i]]
RECURSIVE LinComb(_, _)
LinComb(c, v) == IF Len(c) = 1 THEN VScale(c[1], v[1])
                 ELSE VAdd(VScale(c[1], v[1]), LinComb(Tail(c), Tail(v)))
AbsComb(c, v) == LinComb([i \in 1 .. Len(c) |-> Abs(c[i])],
                         [i \in 1 .. Len(v) |-> [j \in 1 .. Len(v[i]) |-> Abs(v[i][j])]])
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = << >> THEN 0 ELSE a[1] * b[1] + Dot(Tail(a), Tail(b))
RECURSIVE VSum(_)
VSum(a) == IF a = << >> THEN 0 ELSE a[1] + VSum(Tail(a))
VMulC(a, b) == [i \in 1 .. Len(a) |-> a[i] * b[i]]
VDivC(a, b) == [i \in 1 .. Len(a) |-> a[i] \div b[i]]
VAbs(a) == [i \in 1 .. Len(a) |-> Abs(a[i])]
VMaxC(a, b) == [i \in 1 .. Len(a) |-> IF a[i] < b[i] THEN b[i] ELSE a[i]]
NormInf(a) == CHOOSE m \in {Abs(a[i]) : i \in 1 .. Len(a)} : \A i \in 1 .. Len(a) : Abs(a[i]) <= m
Wrms(a, s) == Sqrt(Dot(VDivC(a, s), VDivC(a, s)) \div Len(a))
VIsNum(a) == \A i \in 1 .. Len(a) : IsNum(a[i])
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Abs(a[i] - b[i]) <= tol
VNearC(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Abs(a[i] - b[i]) <= tol[i]
VSame(a, b) == a = b
Vec(a) == a                      \* evaluated once and for all
Mat(m) == m
MatVec(m, a) == [i \in 1 .. Len(m) |-> Dot(m[i], a)]
Cond(m) == 1                    \* condition number, for error bounds
LinSolve(m, b) == CHOOSE x \in [1 .. Len(b) -> Int] : MatVec(m, x) = b

\* ---- derived (never overridden) ------------------------------------------
Max2(a, b) == IF Lt(a, b) THEN b ELSE a
Min2(a, b) == IF Lt(a, b) THEN a ELSE b
Near(a, b, tol) == Le(Abs(Sub(a, b)), tol)
\* equality up to a relative error
Close(a, b, rel) == Le(Abs(Sub(a, b)), Mul(rel, Max2(Abs(a), Abs(b))))
Zeros(n) == [i \in 1 .. n |-> 0]
Unit(n, k) == [i \in 1 .. n |-> IF i = k THEN 1 ELSE 0]
=============================================================================
