----------------------------- MODULE SdirklCoef -----------------------------
(***************************************************************************)
(* The published coefficients of the methods of SDIRKL.                    *)
(*   EulerImp   implicit Euler                                             *)
(*   CrN        Crank-Nicolson (implicit midpoint for linear problems)     *)
(*   RKRS       Ropp and Shadid, gamma = 1 + sqrt(2)/2                     *)
(*   RKMethod1  Hairer and Wanner II, table 6.5 (SDIRK, order four)        *)
(*   RKMethod2  Crouzeix and Raviart, gamma = cos(pi/18)/sqrt(3) + 1/2     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences
LOCAL Half == Div(1, 2)
LOCAL Cos18 == "0.98480775301220805936674302458952301"
LOCAL G2 == Add(Div(Cos18, Sqrt(3)), Half)
LOCAL D2 == Div(1, Mul(6, PowI(Sub(Mul(2, G2), 1), 2)))
LOCAL GR == Add(1, Div(Sqrt(2), 2))
Method(name) ==
  CASE name = "EulerImp" -> [s |-> 1, g |-> 1, A |-> <<<< >>>>, b |-> <<1>>, order |-> 1]
    [] name = "CrN" -> [s |-> 1, g |-> Half, A |-> <<<< >>>>, b |-> <<1>>, order |-> 2]
    [] name = "RKRS" -> [s |-> 2, g |-> GR, A |-> <<<< >>, <<Sub(1, Mul(2, GR))>>>>, b |-> <<Half, Half>>, order |-> 2]
    [] name = "RKMethod1" ->
         LET last == <<Div(25, 24), Div(-49, 48), Div(125, 16), Div(-85, 12)>> IN
         [s |-> 5, g |-> Div(1, 4),
          A |-> <<<< >>, <<Half>>, <<Div(17, 50), Div(-1, 25)>>, <<Div(371, 1360), Div(-137, 2720), Div(15, 544)>>, last>>,
          b |-> last \o <<Div(1, 4)>>, order |-> 4]
    [] OTHER -> [s |-> 3, g |-> G2, A |-> <<<< >>, <<Sub(Half, G2)>>, <<Mul(2, G2), Sub(1, Mul(4, G2))>>>>,
                 b |-> <<D2, Sub(1, Mul(2, D2)), D2>>, order |-> 4]
=============================================================================
