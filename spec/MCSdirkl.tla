----------------------------- MODULE MCSdirkl -----------------------------
(* Exhaustive check of the algorithm of Sdirkl in the field of PP elements.  *)
EXTENDS Sdirkl
CONSTANTS PP, Mode      \* Mode 1: all coefficients, one object; 2: histories of two objects
F == 0 .. PP - 1
MPlus(a, b) == (a + b) % PP
MMinus(a, b) == (a - b) % PP
MTimes(a, b) == (a * b) % PP
MOver(a, b) == CHOOSE x \in F : (x * b) % PP = a \* b # 0
Two(g, a, b1, b2) == [s |-> 2, g |-> g, A |-> <<<< >>, <<a>>>>, b |-> <<b1, b2>>]
One(g, b1) == [s |-> 1, g |-> g, A |-> <<<< >>>>, b |-> <<b1>>]
Three == [s |-> 3, g |-> 2, A |-> <<<< >>, <<3>>, <<1, 4>>>>, b |-> <<1, 3, 2>>]
Ok(M, z) == M.g # 0 /\ (M.g * z) % PP # 1
All == {Two(g, a, b1, b2) : g \in F \ {0}, a \in F, b1 \in F, b2 \in F} \union {One(g, b1) : g \in F \ {0}, b1 \in F}
Some == {One(1, 1), Two(2, 4, 1, 3), Three}
Init == InitVars
MCNext ==
  \/ Mode = 1 /\ ~Alive(1) /\ \E M \in All, z \in F, w \in {0, 1}, f \in BOOLEAN : Ok(M, z) /\ Make(1, M, z, w, f, 1)
  \/ Mode = 2 /\ pc = <<"idle">> /\ \E o \in Objects, M \in Some, z \in {1, 2}, f \in BOOLEAN : Ok(M, z) /\ Make(o, M, z, 1, f, 1)
  \/ \E o \in Objects, f \in BOOLEAN : Begin(o, f) \/ Refuse(o, f)
  \/ Combine \/ Solve \/ Finish
Spec == Init /\ [][MCNext]_svars
=============================================================================
