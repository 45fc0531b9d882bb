----------------------------- MODULE LinalgTrace ----------------------------
(***************************************************************************)
(* Recorded histories of Matrices against Linalg.  Records: make (form,    *)
(* size, band), jac (the Jacobian, and how its cells were found), decomr,  *)
(* decomc (shift, exception), solver, solvec (right-hand side, solution),  *)
(* refuse (an illegal form).  Jacobians and shifts are named by the        *)
(* positions of their records.                                             *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES form, jac, reduced, fr, fc, broken, answer
INSTANCE Linalg WITH Jacs <- {}, Shifts <- {}, Forms <- {}
VARIABLES tr, l, bad
tvars == <<form, jac, reduced, fr, fc, broken, answer, tr, l, bad>>
Recs == Traces[tr]
Rec == Recs[l]
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr
n == Recs[1].n

TraceInit ==
  /\ tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {}
  /\ form = "none" /\ jac = 0 /\ reduced = FALSE /\ fr = Nothing /\ fc = Nothing /\ broken = FALSE /\ answer = NoAnswer
TraceMake == /\ IsRec("make") /\ l = 1 /\ Go /\ form' = Rec.form /\ UNCHANGED <<jac, reduced, fr, fc, broken, answer, bad>>

TraceJac ==
  /\ IsRec("jac") /\ Go /\ SetJac(l)
  /\ bad' = bad \union Must(Rec.distinct /\ Rec.band /\ Rec.cells = Rec.want, "M01", "rows of the columns of the Jacobian")
                \union Must(Rec.kept, "M01", "cells of the Jacobian")

\* ---- matrices -------------------------------------------------------------
J(k) == Recs[k].J
Real(k, fac) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN Sub(fac, J(k)[i][j]) ELSE Opp(J(k)[i][j])]]
\* the system for the real and imaginary parts
Twice(k, al, be) ==
  [i \in 1 .. 2 * n |-> [j \in 1 .. 2 * n |->
     LET p == IF i > n THEN i - n ELSE i
         q == IF j > n THEN j - n ELSE j
     IN IF (i > n) = (j > n) THEN IF p = q THEN Sub(al, J(k)[p][q]) ELSE Opp(J(k)[p][q])
        ELSE IF p # q THEN 0 ELSE IF i > n THEN be ELSE Opp(be)]]
IsZero(a) == Eq(a, 0)
\* singular, and found singular exactly by any elimination with row exchanges
Singular(M) ==
  LET k == Len(M)
      upper == \A i \in 1 .. k : \A j \in 1 .. i - 1 : IsZero(M[i][j])
  IN \/ upper /\ \E i \in 1 .. k : IsZero(M[i][i])
     \/ form # "hess" /\ (\E i \in 1 .. k : (\A j \in 1 .. k : IsZero(M[i][j])) \/ (\A j \in 1 .. k : IsZero(M[j][i])))
\* far from singular
Regular(M) == Le(Cond(Mat(M)), "1E11")
\* numbers which differ much are allowed in the matrices: backward errors
Norm(M) == LET r == Vec([i \in 1 .. Len(M) |-> VSum(VAbs(M[i]))]) IN NormInf(r)
Solved(M, x, b) ==
  LET A == Mat(M)
      r == VSub(b, MatVec(A, x))
  IN VIsNum(x) /\ Le(NormInf(r), Mul(Mul("1E-14", Len(b) + 4), Add(Mul(Norm(A), NormInf(x)), NormInf(b))))

TraceDecomr ==
  /\ IsRec("decomr") /\ Go /\ Decomr(l, Rec.exc = 1)
  /\ LET M == Real(jac, Rec.fac) IN
     bad' = bad \union (IF Rec.exc = 0 THEN Must(~Singular(M), "M01", "a singular matrix is not reported")
                        ELSE Must(~Regular(M), "M01", "a regular matrix is refused"))
TraceDecomc ==
  /\ IsRec("decomc") /\ Go /\ Decomc(l, Rec.exc = 1)
  /\ LET M == Real(jac, Rec.alpha) IN
     bad' = bad \union (IF Rec.exc = 0 THEN Must(~(IsZero(Rec.beta) /\ Singular(M)), "M01", "a singular matrix is not reported")
                        ELSE Must(~Regular(Twice(jac, Rec.alpha, Rec.beta)), "M01", "a regular matrix is refused"))
TraceSolver ==
  /\ IsRec("solver") /\ Go /\ Solver
  /\ bad' = bad \union Must(Rec.exc = 0 /\ Solved(Real(fr.of, Recs[fr.shift].fac), Rec.x, Rec.b), "M01", "solution of the real system")
TraceSolvec ==
  /\ IsRec("solvec") /\ Go /\ Solvec
  /\ LET S == Recs[fc.shift] IN
     bad' = bad \union Must(Rec.exc = 0 /\ Solved(Twice(fc.of, S.alpha, S.beta), Rec.x \o Rec.y, Rec.b \o Rec.c), "M01", "solution of the complex system")
TraceRefuse ==
  /\ IsRec("refuse") /\ Go /\ UNCHANGED <<form, jac, reduced, fr, fc, broken, answer>>
  /\ LET illegal == Rec.form = "hess" \/ Rec.sub >= Rec.n \/ Rec.sup >= Rec.n IN
     bad' = bad \union Must(illegal <=> Rec.exc = 1, "M01", "forms which are refused")
Expected == \/ Rec.e \in {"jac", "refuse"} \/ (Rec.e = "make" /\ l = 1)
            \/ jac # 0 /\ Rec.e = "decomr"
            \/ jac # 0 /\ Rec.e = "decomc" /\ (form = "hess" => reduced)
            \/ Rec.e = "solver" /\ Usable(fr)
            \/ Rec.e = "solvec" /\ Usable(fc)
TraceOther ==
  /\ l <= Len(Recs) /\ ~Expected /\ Go
  /\ bad' = bad \union {<<"ALL", "crash or hang">>}
  /\ UNCHANGED <<form, jac, reduced, fr, fc, broken, answer>>
Finished == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceMake \/ TraceJac \/ TraceDecomr \/ TraceDecomc \/ TraceSolver \/ TraceSolvec \/ TraceRefuse \/ TraceOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {} /\ OneSystem
=============================================================================
