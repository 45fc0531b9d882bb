----------------------------- MODULE RodasCoef -----------------------------
(* The three 4(3) Rosenbrock methods of Rodas (Hairer & Wanner, Solving ODEs *)
(* II, code RODAS), in the transformed variables U = Gamma K, and their      *)
(* order conditions, which are checked when the module is loaded.            *)
EXTENDS Integers, Sequences, Num

Coef == <<
  [gamma |-> "0.2500000000000000",
   alpha |-> <<"0", "0.386", "0.21", "0.63", "1", "1">>,
   d |-> <<"0.2500000000000000", "-0.1043000000000000", "0.1035000000000000", "-0.3620000000000023E-1", "0", "0">>,
   a |-> << << >>, <<"0.1544000000000000E1">>,
           <<"0.9466785280815826", "0.2557011698983284">>,
           <<"0.3314825187068521E1", "0.2896124015972201E1", "0.9986419139977817">>,
           <<"0.1221224509226641E1", "0.6019134481288629E1", "0.1253708332932087E2", "-0.6878860361058950">> >>,
   c |-> << << >>, <<"-0.5668800000000000E1">>,
           <<"-0.2430093356833875E1", "-0.2063599157091915">>,
           <<"-0.1073529058151375", "-0.9594562251023355E1", "-0.2047028614809616E2">>,
           <<"0.7496443313967647E1", "-0.1024680431464352E2", "-0.3399990352819905E2", "0.1170890893206160E2">>,
           <<"0.8083246795921522E1", "-0.7981132988064893E1", "-0.3152159432874371E2", "0.1631930543123136E2", "-0.6058818238834054E1">> >>],
  [gamma |-> "0.2500000000000000",
   alpha |-> <<"0", "0.3507221", "0.2557041", "0.6817790", "1", "1">>,
   d |-> <<"0.2500000000000000", "-0.6902209999999998E-1", "-0.9671999999999459E-3", "-0.8797900000000025E-1", "0", "0">>,
   a |-> << << >>, <<"0.1402888400000000E1">>,
           <<"0.6581212688557198", "-0.1320936088384301E1">>,
           <<"0.7131197445744498E1", "0.1602964143958207E2", "-0.5561572550509766E1">>,
           <<"0.2273885722420363E2", "0.6738147284535289E2", "-0.3121877493038560E2", "0.7285641833203814">> >>,
   c |-> << << >>, <<"-0.5104353600000000E1">>,
           <<"-0.2899967805418783E1", "0.4040399359702244E1">>,
           <<"-0.3264449927841361E2", "-0.9935311008728094E2", "0.4999119122405989E2">>,
           <<"-0.7646023087151691E2", "-0.2785942120829058e+03", "0.1539294840910643e+03", "0.1097101866258358E2">>,
           <<"-0.7629701586804983E2", "-0.2942795630511232e+03", "0.1620029695867566e+03", "0.2365166903095270E2", "-0.7652977706771382E1">> >>],
  [gamma |-> "0.25",
   alpha |-> <<"0", "0.75", "0.21", "0.63", "1", "1">>,
   d |-> <<"0.2500000000000000", "-0.5000000000000000", "-0.2350400000000000E-1", "-0.3620000000000000E-1", "0", "0">>,
   a |-> << << >>, <<"0.3000000000000000E1">>,
           <<"0.1831036793486759E1", "0.4955183967433795">>,
           <<"0.2304376582692669E1", "-0.5249275245743001E-1", "-0.1176798761832782E1">>,
           <<"-0.7170454962423024E1", "-0.4741636671481785E1", "-0.1631002631330971E2", "-0.1062004044111401E1">> >>,
   c |-> << << >>, <<"-0.1200000000000000E2">>,
           <<"-0.8791795173947035E1", "-0.2207865586973518E1">>,
           <<"0.1081793056857153E2", "0.6780270611428266E1", "0.1953485944642410E2">>,
           <<"0.3419095006749676E2", "0.1549671153725963E2", "0.5474760875964130E2", "0.1416005392148534E2">>,
           <<"0.3462605830930532E2", "0.1530084976114473E2", "0.5699955578662667E2", "0.1840807009793095E2", "-0.5714285714285717E1">> >>]
>>

\* ---- order conditions (Hairer & Wanner II, IV.7) --------------------------
LOCAL Pad(r) == [j \in 1 .. 6 |-> IF j <= Len(r) THEN r[j] ELSE 0]
LOCAL A6(k) == Append(Coef[k].a, Append(Coef[k].a[5], 1))      \* sixth stage: the embedded solution
LOCAL Inv(m) == [i \in 1 .. 6 |-> LinSolve(m, Unit(6, i))]     \* columns of the inverse
LOCAL Tr(m) == [i \in 1 .. 6 |-> [j \in 1 .. 6 |-> m[j][i]]]
LOCAL MM(a, b) == [i \in 1 .. 6 |-> [j \in 1 .. 6 |-> Dot(a[i], [k \in 1 .. 6 |-> b[k][j]])]]
LOCAL GammaMat(k) == Tr(Inv([i \in 1 .. 6 |-> [j \in 1 .. 6 |->
                        IF i = j THEN Div(1, Coef[k].gamma)
                        ELSE IF j < i THEN Opp(Coef[k].c[i][j]) ELSE 0]]))
LOCAL Ones == [i \in 1 .. 6 |-> 1]
LOCAL Is(v, num, den) == Near(v, Div(num, den), "1E-12")
LOCAL Order(k, m, four) ==
  LET G == GammaMat(k)
      Al == MM([i \in 1 .. 6 |-> Pad(A6(k)[i])], G)
      b == [j \in 1 .. 6 |-> Dot(m, [i \in 1 .. 6 |-> G[i][j]])]
      B == [i \in 1 .. 6 |-> VAdd(Al[i], G[i])]
      as == MatVec(Al, Ones)
      bs == MatVec(B, Ones)
      as2 == VMulC(as, as)
  IN /\ Is(Dot(b, Ones), 1, 1)
     /\ Is(Dot(b, bs), 1, 2)
     /\ Is(Dot(b, as2), 1, 3) /\ Is(Dot(b, MatVec(B, bs)), 1, 6)
     /\ four =>
          /\ Is(Dot(b, VMulC(as, as2)), 1, 4)
          /\ Is(Dot(b, VMulC(as, MatVec(Al, bs))), 1, 8)
          /\ Is(Dot(b, MatVec(B, as2)), 1, 12)
          /\ Is(Dot(b, MatVec(B, MatVec(B, bs))), 1, 24)
     \* the nodes and the coefficients of the derivative in time
     /\ \A i \in 1 .. 6 : Near(as[i], Coef[k].alpha[i], "1E-12")
     /\ \A i \in 1 .. 6 : Near(MatVec(G, Ones)[i], Coef[k].d[i], "1E-12")

OrderConditions ==
  \A k \in 1 .. 3 :
    /\ Order(k, Append(A6(k)[6], 1), TRUE)
    /\ Order(k, Append(A6(k)[6], 0), FALSE)
=============================================================================
