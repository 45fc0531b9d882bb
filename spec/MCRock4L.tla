----------------------------- MODULE MCRock4L -----------------------------
(* Exhaustive check of the control of Rock4L: small integers.               *)
EXTENDS Rock4L
CONSTANTS TMax, RhoMax
MCNearEnd(s, r) == s >= r
MCTooSmall(s) == s <= 0
MCMax == 9
MCStages(s, r) == 5 + s * r
MCDegree(s) == CHOOSE d \in {1, 2, 3, 5} : d + 4 >= s /\ \A c \in {1, 2, 3, 5} : c + 4 >= s => d <= c
Init == InitVars
MCNext == \/ \E a, b \in 0 .. TMax, h0 \in 0 .. TMax + 1, r \in 0 .. RhoMax : (pc = "idle" \/ (h0 <= 1 /\ a <= 1 /\ b >= TMax - 1)) /\ Start(a, b, h0, r)
          \/ Refuse
          \/ Step
          \/ GiveUp
Spec == Init /\ [][MCNext]_lvars /\ WF_lvars(Step \/ GiveUp)
Terminates == pc = "ready" ~> pc \in {"done", "exc"}
=============================================================================
