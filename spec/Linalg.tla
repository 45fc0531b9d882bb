------------------------------- MODULE Linalg -------------------------------
(***************************************************************************)
(* The protocol of the linear algebra of the integrators (Matrices): a     *)
(* Jacobian is given, shifted matrices fac I - J (real) and                *)
(* (alpha + i beta) I - J (complex) are factorised, systems are solved.    *)
(* Form "hess": the Jacobian is reduced in place, once, by the first       *)
(* factorisation which follows; solutions go through this reduction.       *)
(* Jacobians and shifts are names here.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Jacs, Shifts, Forms
VARIABLES form,
          jac,      \* the Jacobian the user gave last
          reduced,  \* the array holds its Hessenberg form
          fr, fc,   \* factors: [of, shift], or nothing yet
          broken,   \* the last factorisation failed
          answer    \* what the last solution solves: [of, shift, through]
lvars == <<form, jac, reduced, fr, fc, broken, answer>>
Nothing == [of |-> 0, shift |-> 0]
NoAnswer == [of |-> 0, shift |-> 0, through |-> 0]

LInit == form \in Forms /\ jac = 0 /\ reduced = FALSE /\ fr = Nothing /\ fc = Nothing /\ broken = FALSE /\ answer = NoAnswer

\* a new Jacobian is written in the array, and calhes is set
SetJac(j) == /\ jac' = j /\ reduced' = FALSE /\ answer' = NoAnswer
             /\ UNCHANGED <<form, fr, fc, broken>>
\* singular: the exception is raised, and nothing can be solved
Decomr(s, singular) ==
  /\ jac # 0
  /\ reduced' = (form = "hess")
  /\ fr' = IF singular THEN Nothing ELSE [of |-> jac, shift |-> s]
  /\ broken' = singular /\ answer' = NoAnswer
  /\ UNCHANGED <<form, jac, fc>>
\* the reduction is that of the real factorisation
Decomc(s, singular) ==
  /\ jac # 0 /\ (form = "hess" => reduced)
  /\ fc' = IF singular THEN Nothing ELSE [of |-> jac, shift |-> s]
  /\ broken' = singular /\ answer' = NoAnswer
  /\ UNCHANGED <<form, jac, reduced, fr>>
\* with a reduced Jacobian, factors of another one cannot be used any more
Usable(f) == f # Nothing /\ (form = "hess" => reduced /\ f.of = jac)
Solver == /\ Usable(fr) /\ answer' = [of |-> fr.of, shift |-> fr.shift, through |-> IF form = "hess" THEN jac ELSE fr.of]
          /\ UNCHANGED <<form, jac, reduced, fr, fc, broken>>
Solvec == /\ Usable(fc) /\ answer' = [of |-> fc.of, shift |-> fc.shift, through |-> IF form = "hess" THEN jac ELSE fc.of]
          /\ UNCHANGED <<form, jac, reduced, fr, fc, broken>>

\* a solution is that of one system: the shift and the Jacobian last factorised
OneSystem == answer # NoAnswer => answer.through = answer.of /\ (\E f \in {fr, fc} : f.of = answer.of /\ f.shift = answer.shift)
FactorsStay == [][(fr' # fr => broken' \/ fr'.of = jac) /\ (fc' # fc => broken' \/ fc'.of = jac)]_lvars
NeverFromSingular == broken => answer = NoAnswer \/ answer.of # 0
=============================================================================
