------------------------------ MODULE MCLinalg ------------------------------
(***************************************************************************)
(* Mode 1: the elimination of Hess solves every regular Hessenberg system  *)
(*         with numbers modulo 3 (size Size), and finds the singular ones. *)
(* Mode 2: the same with complex numbers modulo 3 (a field of nine).       *)
(* Mode 3: the protocol of Linalg, all histories.                          *)
(* The matrix is chosen row by row, to have small steps.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mode, N, Jacs, Shifts
VARIABLES M, b, form, jac, reduced, fr, fc, broken, answer
mvars == <<M, b, form, jac, reduced, fr, fc, broken, answer>>

R(a) == a % 3
\* complex numbers modulo 3 are 3 * re + im
Re(a) == a \div 3
Im(a) == a % 3
C(x, y) == 3 * R(x) + R(y)
FPlus(x, y) == IF Mode = 1 THEN R(x + y) ELSE C(Re(x) + Re(y), Im(x) + Im(y))
FMinus(x, y) == IF Mode = 1 THEN R(x - y + 3) ELSE C(Re(x) - Re(y) + 3, Im(x) - Im(y) + 3)
FTimes(x, y) == IF Mode = 1 THEN R(x * y) ELSE C(Re(x) * Re(y) - Im(x) * Im(y) + 9, Re(x) * Im(y) + Im(x) * Re(y))
F == IF Mode = 1 THEN 0 .. 2 ELSE 0 .. 8
One == IF Mode = 1 THEN 1 ELSE 3
Inverse == [y \in F \ {0} |-> CHOOSE z \in F : FTimes(y, z) = One]
FOver(x, y) == FTimes(x, Inverse[y])
FSize(x) == IF Mode = 1 THEN x ELSE Re(x) + Im(x)

INSTANCE Hess WITH Plus <- FPlus, Minus <- FMinus, Times <- FTimes, Over <- FOver, Size <- FSize, Nil <- 0, Unity <- One
INSTANCE Linalg WITH Forms <- {"full", "hess"}

Rows(i) == {r \in [1 .. N -> F] : \A j \in 1 .. N : j < i - 1 => r[j] = 0}
Init == /\ M = << >> /\ b = << >>
        /\ IF Mode = 3 THEN LInit ELSE form = "full" /\ jac = 0 /\ reduced = FALSE /\ fr = Nothing /\ fc = Nothing /\ broken = FALSE /\ answer = NoAnswer
Algebra ==
  /\ Mode \in {1, 2} /\ UNCHANGED <<form, jac, reduced, fr, fc, broken, answer>>
  /\ \/ Len(M) < N /\ b' = b /\ \E r \in Rows(Len(M) + 1) : M' = Append(M, r)
     \/ Len(M) = N /\ b = << >> /\ M' = M /\ b' \in [1 .. N -> F]
Protocol ==
  /\ Mode = 3 /\ UNCHANGED <<M, b>>
  /\ \/ \E j \in Jacs : SetJac(j)
     \/ \E s \in Shifts, x \in BOOLEAN : Decomr(s, x) \/ Decomc(s, x)
     \/ Solver \/ Solvec
Next == Algebra \/ Protocol
Spec == Init /\ [][Next]_mvars

Solves == b # << >> => LET L == Dech(M) IN L.bad = 0 => Apply(M, Solh(L, b)) = b
FindsSingular == Len(M) = N /\ b = << >> => (Dech(M).bad # 0 <=> Det(M) = 0)
=============================================================================
