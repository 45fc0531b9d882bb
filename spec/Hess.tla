-------------------------------- MODULE Hess --------------------------------
(***************************************************************************)
(* Elimination in a Hessenberg matrix (one subdiagonal) with row pivoting, *)
(* and the solution of a system with its factors (dech, solh and, with     *)
(* complex numbers, dechc, solhc), in any field.                           *)
(*   Size(a)   what pivots are compared with; 0 for the zero of the field  *)
(* A matrix is a sequence of rows.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Plus(_, _), Minus(_, _), Times(_, _), Over(_, _), Size(_), Nil, Unity

\* factors: [A |-> matrix, ip |-> pivots, bad |-> 0 or the rank where it is singular]
Dech(M) ==
  LET n == Len(M)
      RECURSIVE Step(_, _, _)
      Step(k, A, ip) ==
        IF k = n THEN [A |-> A, ip |-> ip, bad |-> IF Size(A[n][n]) = 0 THEN n ELSE 0]
        ELSE LET m == IF Size(A[k + 1][k]) > Size(A[k][k]) THEN k + 1 ELSE k
                 t == A[m][k]
             IN IF Size(t) = 0 THEN [A |-> A, ip |-> Append(ip, m), bad |-> k]
                ELSE LET other == IF m = k THEN k + 1 ELSE k
                         f == Minus(Nil, Over(A[other][k], t))       \* the multiplier is kept in the zero
                         top == [j \in 1 .. n |-> IF j < k THEN A[k][j] ELSE A[m][j]]
                         low == [j \in 1 .. n |-> IF j < k THEN A[k + 1][j]
                                                  ELSE IF j = k THEN f
                                                  ELSE Plus(A[other][j], Times(f, A[m][j]))]
                     IN Step(k + 1, [A EXCEPT ![k] = top, ![k + 1] = low], Append(ip, m))
  IN Step(1, M, << >>)

Solh(L, b) ==
  LET n == Len(L.A)
      RECURSIVE Down(_, _), Up(_, _), Col(_, _, _)
      Down(k, v) ==
        IF k = n THEN v
        ELSE LET m == L.ip[k]
                 t == v[m]
                 w == [v EXCEPT ![m] = v[k], ![k] = t]
             IN Down(k + 1, [w EXCEPT ![k + 1] = Plus(@, Times(L.A[k + 1][k], t))])
      \* rows above k
      Col(i, k, v) == IF i = k THEN v ELSE Col(i + 1, k, [v EXCEPT ![i] = Minus(@, Times(L.A[i][k], v[k]))])
      Up(k, v) == IF k = 0 THEN v
                  ELSE LET w == [v EXCEPT ![k] = Over(@, L.A[k][k])] IN Up(k - 1, Col(1, k, w))
  IN Up(n, Down(1, b))

RECURSIVE DotProduct(_, _)
DotProduct(a, b) == IF a = << >> THEN Nil ELSE Plus(Times(a[1], b[1]), DotProduct(Tail(a), Tail(b)))
Apply(M, x) == [i \in 1 .. Len(M) |-> DotProduct(M[i], x)]
RECURSIVE Det(_)
Det(M) ==
  LET n == Len(M)
      Minor(j) == [i \in 1 .. n - 1 |-> [k \in 1 .. n - 1 |-> M[i + 1][IF k < j THEN k ELSE k + 1]]]
      RECURSIVE S(_)
      S(j) == IF j > n THEN Nil
              ELSE LET t == Times(M[1][j], Det(Minor(j))) IN
                   IF j % 2 = 1 THEN Plus(t, S(j + 1)) ELSE Minus(S(j + 1), t)
  IN IF n = 0 THEN Unity ELSE S(1)
=============================================================================
