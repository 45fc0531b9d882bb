------------------------------ MODULE LinalgGen -----------------------------
(* Behaviours of Linalg, written as scripts for the harness.                *)
EXTENDS Linalg, TLC
CONSTANT Length
VARIABLES hist, out
gvars == <<form, jac, reduced, fr, fc, broken, answer, hist, out>>
GInit == LInit /\ hist = << >> /\ out = FALSE
Op(o) == hist' = Append(hist, o) /\ out' = out
GNext ==
  \/ /\ Len(hist) < Length
     /\ \/ \E j \in Jacs : SetJac(j) /\ Op("J")
        \/ \E s \in Shifts : Decomr(s, FALSE) /\ Op("r")
        \/ \E s \in Shifts : Decomc(s, FALSE) /\ Op("c")
        \/ \E k \in 1 .. 2 : Solver /\ Op("s")
        \/ \E k \in 1 .. 2 : Solvec /\ Op("z")
  \/ /\ Len(hist) = Length /\ ~out /\ out' = TRUE
     /\ PrintT(<<"SCRIPT", form, hist>>)
     /\ UNCHANGED <<form, jac, reduced, fr, fc, broken, answer, hist>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
