----------------------------- MODULE SdirklTrace ----------------------------
(***************************************************************************)
(* Histories of several Sdirkl objects against module Sdirkl.  Records:    *)
(*   make   obj: method, size, step, kind; the calls of the operator's     *)
(*          init; the operator is H diag(lam) H, H = I - 2 v v'            *)
(*   step   obj, form (affine or not), data before and after, forcing      *)
(*          before and after, solves, and the same step by a new object    *)
(* The state of the specification is kept in the eigenvectors' basis: y is *)
(* a vector there, and a step is Direct for every component.               *)
(***************************************************************************)
EXTENDS TraceLib, SdirklCoef

Objects == 1 .. 3
VARIABLES obj, pc, y0, stale, refused
INSTANCE Sdirkl WITH Plus <- Add, Minus <- Sub, Times <- Mul, Over <- Div
VARIABLES tr, l, bad
tvars == <<obj, pc, y0, stale, refused, tr, l, bad>>
Recs == Traces[tr]
Rec == Recs[l]
IsRec(e) == l <= Len(Recs) /\ Rec.e = e
Go == l' = l + 1 /\ tr' = tr

\* I - 2 v v' applied to x
Reflect(v, x) == VAxpy(Mul(-2, Dot(v, x)), v, x)

TraceInit == tr \in 1 .. Len(Traces) /\ l = 1 /\ bad = {} /\ InitVars

\* Make: the object's data are known by the position of its record
TraceMake ==
  /\ IsRec("make") /\ Go
  /\ obj' = [obj EXCEPT ![Rec.obj] = [alive |-> TRUE, m |-> Rec.m, affine |-> Rec.affine, at |-> l, inits |-> Rec.inits]]
  /\ UNCHANGED <<pc, y0, stale, refused>>
  /\ LET M == Method(Rec.m) IN
     bad' = bad \union Must(Rec.inits = 1, "I02", "number of initialisations of the operator")
                \union Must(Rec.initn = Rec.n, "I02", "size given to the operator")
                \union Must(Close(Rec.gamma, Mul(Rec.dt, M.g), "4E-15"), "I02", "step given to the operator")

TraceStep ==
  /\ IsRec("step") /\ Go /\ UNCHANGED <<obj, pc, y0, stale>>
  /\ LET O == obj[Rec.obj]
         Mk == Recs[O.at]
         M == Method(O.m)
         n == Mk.n
         wrong == O.affine # Rec.affine
         okay == Rec.exc = 0
         y == Reflect(Mk.v, Rec.y)
         w == IF Rec.affine THEN VScale(Mk.dt, Reflect(Mk.v, Rec.phi)) ELSE Zeros(n)
         r == Reflect(Mk.v, [i \in 1 .. n |-> Direct(M, Mul(Mk.dt, Mk.lam[i]), w[i], y[i])])
         scale == Add(1, Add(NormInf(Rec.y), NormInf(w)))
     IN /\ refused' = IF wrong THEN 1 - refused ELSE refused
        /\ bad' = bad
             \union Must(Rec.inits = 0, "I02", "the operator is initialised by a step")
             \union Must(VSame(Rec.phi, Rec.phi2), "I02", "the forcing is modified")
             \union (IF wrong
                     THEN Must(Rec.exc = 1, "I02", "the other call form is not refused")
                          \union Must(VSame(Rec.y, Rec.r), "I02", "a refused call changes the data")
                          \union Must(Rec.applies = 0, "I02", "a refused call uses the operator")
                     ELSE Must(okay, "I02", "a step is refused")
                          \union Must(Rec.applies = M.s, "I02", "number of solves")
                          \union Must(okay => VSame(Rec.r, Rec.fresh) /\ Rec.fexc = 0, "I02", "another result than that of a new object")
                          \union Must(okay => VNear(Rec.r, r, Mul("1E-11", scale)), "I01", "result of the step"))

TraceOther ==
  /\ l <= Len(Recs) /\ Rec.e \notin {"make", "step"}
  /\ Go /\ UNCHANGED <<obj, pc, y0, stale, refused>>
  /\ bad' = bad \union {<<"ALL", "crash or hang">>}

Finished == l > Len(Recs) /\ UNCHANGED tvars
TraceNext == TraceMake \/ TraceStep \/ TraceOther \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Conforms == Enforced(bad) = {}
=============================================================================
