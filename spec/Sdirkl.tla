------------------------------- MODULE Sdirkl -------------------------------
(***************************************************************************)
(* Diagonally implicit Runge-Kutta steps for y' = a y + b (Sdirkl).        *)
(*                                                                         *)
(* Definition: Direct, the method from its tableau, z = step * a and       *)
(* w = step * b.  Algorithm: the actions below on the memory of one object *)
(* (stages Z, right hand side W), in the form used by the code: linear     *)
(* combinations divided by the diagonal coefficient, one solve per stage,  *)
(* and final weights D = B A^-1.  MCSdirkl checks exhaustively in a finite *)
(* field that the algorithm gives Direct for any sequence of steps of      *)
(* several objects, and that nothing is read which the step did not write. *)
(* SdirklMethod and SdirklTrace bind Direct and the call protocol to the   *)
(* code.                                                                   *)
(*   Make      a new object: the operator is initialised once with step    *)
(*             times the diagonal coefficient                              *)
(*   Begin, Combine, Solve, Finish    one step                             *)
(*   Refuse    the other call form: exception, nothing touched             *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), Over(_, _),
          Objects

\* a method: [s |-> stages, g |-> diagonal, A |-> strictly lower rows, b |-> weights]
Sum(f, n) == LET RECURSIVE S(_)
                 S(i) == IF i = 0 THEN 0 ELSE Plus(S(i - 1), f[i])
             IN S(n)
\* the increments k_i = step * f(stage i)
Increments(M, z, w, y) ==
  LET RECURSIVE K(_)
      K(i) == IF i = 0 THEN << >>
              ELSE LET p == K(i - 1) IN
                   Append(p, Over(Plus(Times(z, Plus(y, Sum([j \in 1 .. i - 1 |-> Times(M.A[i][j], p[j])], i - 1))), w),
                                  Minus(1, Times(M.g, z))))
  IN K(M.s)
Direct(M, z, w, y) == LET k == Increments(M, z, w, y) IN Plus(y, Sum([i \in 1 .. M.s |-> Times(M.b[i], k[i])], M.s))

\* coefficients in the form of the code
RowSum(M, i) == Plus(M.g, Sum(M.A[i], i - 1))
\* D solves D A = b, backwards
Weights(M) ==
  LET RECURSIVE W(_)
      W(i) == IF i > M.s THEN << >>
              ELSE LET r == W(i + 1)     \* d_{i+1} .. d_s
                       c == Sum([j \in 1 .. M.s - i |-> Times(r[j], M.A[i + j][i])], M.s - i)
                   IN <<Over(Minus(M.b[i], c), M.g)>> \o r
  IN W(1)

VARIABLES obj,     \* object |-> [m, z, w, affine, inits, shift, y, Z, W, V] or Dead
          pc,      \* <<"idle">>, <<"combine", o, i>>, <<"solve", o, i>>, <<"finish", o>>
          y0,      \* data of the step in progress
          stale,   \* something was read which this step did not write
          refused
svars == <<obj, pc, y0, stale, refused>>

NoVal == -1                       \* no value (the others are not negative in MCSdirkl)
Dead == [alive |-> FALSE]
Alive(o) == obj[o].alive
InitVars == obj = [o \in Objects |-> Dead] /\ pc = <<"idle">> /\ y0 = 0 /\ stale = FALSE /\ refused = 0

Make(o, M, z, w, affine, y) ==
  /\ pc = <<"idle">>
  /\ obj' = [obj EXCEPT ![o] = [alive |-> TRUE, m |-> M, z |-> z, w |-> w, affine |-> affine, inits |-> 1, shift |-> M.g, applies |-> 0, y |-> y,
                                Z |-> [i \in 1 .. M.s |-> NoVal], V |-> NoVal]]
  /\ UNCHANGED <<pc, y0, stale, refused>>

Refuse(o, affine) ==
  /\ pc = <<"idle">> /\ Alive(o) /\ obj[o].affine # affine
  /\ refused' = 1 - refused /\ UNCHANGED <<obj, pc, y0, stale>>

\* memory written by earlier steps is marked: it must not be read any more
Begin(o, affine) ==
  /\ pc = <<"idle">> /\ Alive(o) /\ obj[o].affine = affine
  /\ pc' = <<"combine", o, 1>> /\ y0' = obj[o].y
  /\ obj' = [obj EXCEPT ![o].Z = [i \in 1 .. obj[o].m.s |-> NoVal], ![o].V = NoVal, ![o].applies = 0]
  /\ UNCHANGED <<stale, refused>>

Combine ==
  /\ pc[1] = "combine"
  /\ LET o == pc[2]
         i == pc[3]
         O == obj[o]
         ok == \A j \in 1 .. i - 1 : O.Z[j] # NoVal
     IN /\ stale' = (stale \/ ~ok)
        /\ obj' = [obj EXCEPT ![o].V =
             IF ~ok THEN NoVal
             ELSE Plus(Times(Over(RowSum(O.m, i), O.m.g), O.y), Sum([j \in 1 .. i - 1 |-> Times(Over(O.m.A[i][j], O.m.g), O.Z[j])], i - 1))]
        /\ pc' = <<"solve", o, i>>
  /\ UNCHANGED <<y0, refused>>

\* out = (I - shift a)^-1 (v + S w), then minus v
Solve ==
  /\ pc[1] = "solve"
  /\ LET o == pc[2]
         i == pc[3]
         O == obj[o]
         ok == O.V # NoVal
         r == IF O.affine THEN Plus(O.V, Times(RowSum(O.m, i), O.w)) ELSE O.V
     IN /\ stale' = (stale \/ ~ok)
        /\ obj' = [obj EXCEPT ![o].Z[i] = IF ok THEN Minus(Over(r, Minus(1, Times(O.shift, O.z))), O.V) ELSE NoVal,
                              ![o].applies = @ + 1]
        /\ pc' = IF i = O.m.s THEN <<"finish", o>> ELSE <<"combine", o, i + 1>>
  /\ UNCHANGED <<y0, refused>>

Finish ==
  /\ pc[1] = "finish"
  /\ LET o == pc[2]
         O == obj[o]
         D == Weights(O.m)
         ok == \A i \in 1 .. O.m.s : O.Z[i] # NoVal
     IN /\ stale' = (stale \/ ~ok)
        /\ obj' = [obj EXCEPT ![o].y = IF ok THEN Plus(O.y, Sum([i \in 1 .. O.m.s |-> Times(D[i], O.Z[i])], O.m.s)) ELSE O.y]
        /\ pc' = <<"idle">>
  /\ UNCHANGED <<y0, refused>>

\* ---- what users rely on ---------------------------------------------------
NoStaleRead == ~stale
InitialisedOnce == \A o \in Objects : Alive(o) => obj[o].inits = 1 /\ obj[o].shift = obj[o].m.g
OneSolvePerStage == \A o \in Objects : Alive(o) => obj[o].applies <= obj[o].m.s
\* a step gives the Runge-Kutta method, whatever was done before
IsTheMethod == [][pc[1] = "finish" => LET o == pc[2] O == obj[o] IN
                    /\ obj'[o].y = Direct(O.m, O.z, IF O.affine THEN O.w ELSE 0, y0)
                    /\ O.applies = O.m.s
                    /\ \A p \in Objects \ {o} : obj'[p] = obj[p]]_svars
\* nothing moves but at the end of a step or when an object is made
DataStay == [][\A o \in Objects : Alive(o) /\ obj'[o].y # obj[o].y => pc[1] \in {"finish", "idle"}]_svars
RefusalTouchesNothing == [][refused' # refused => UNCHANGED obj]_svars
=============================================================================
