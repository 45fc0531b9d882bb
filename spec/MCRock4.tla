------------------------------ MODULE MCRock4 ------------------------------
(* Exhaustive check of the control of Rock4 with the buffers of its kernel.  *)
(* Times, steps and spectral radii are small integers; any attempt may be    *)
(* accepted or rejected; the next steps are any which the law allows.        *)
EXTENDS Rock4, TLC, FiniteSets
CONSTANTS TMax, RhoMax
\* degrees 1, 2, 3 and 5; stages: the degree and four more
MCNearEnd(s, r) == s >= r
MCTooSmall(s) == s <= 0
MCMax == 9
MCStages(s, r) == 5 + s * r
MCLimit(r) == 4 \div r
MCDegree(s) == CHOOSE d \in {1, 2, 3, 5} : d + 4 >= s /\ \A c \in {1, 2, 3, 5} : c + 4 >= s => d <= c
\* ---- buffers: 1 is the user's at first, 2 .. 8 are the integrator's --------
\* a kernel state [y, fn, temp, g0, k, mem, ok]: which buffer plays which role,
\* what they hold: recurrence terms <<"g", j>>, derivatives <<"d", j>> of term j
Ok(s, c) == [s EXCEPT !.ok = @ /\ c]
Put(s, b, what) == [s EXCEPT !.mem[b] = what]
Swap(s) == [s EXCEPT !.g1 = s.g0, !.g0 = s.g1]
Term(j, v) == IF j = 0 THEN <<"y", v>> ELSE <<"g", j, v>>
\* the recurrence up to degree d: term i uses F(term i-1), term i-1, term i-2
RECURSIVE Recur(_, _, _, _)
Recur(s, i, d, v) ==
  IF i > d THEN s
  ELSE LET w == IF i = 2 THEN s.g0 ELSE s.k1          \* where F(term i-1) is put
           prev == IF i = 2 THEN s.y ELSE s.g0         \* where term i-2 is
           c == /\ s.mem[s.g1] = Term(i - 1, v) /\ s.mem[prev] = Term(i - 2, v)
                /\ w # s.g1 /\ w # s.y /\ w # s.fn
       IN Recur(Swap(Put(Put(Ok(s, c), w, <<"work">>), s.g0, Term(i, v))), i + 1, d, v)
Kernel(o, rest, m, d, v) ==
  LET s0 == [y |-> o[1], fn |-> o[2], g1 |-> rest[1], g0 |-> rest[2], k1 |-> rest[3], mem |-> m, ok |-> TRUE]
      s1 == Put(Ok(s0, m[o[1]] = <<"y", v>> /\ m[o[2]] = <<"f", v>>), s0.g1, Term(1, v))
      s2 == IF d < 2 THEN Swap(s1) ELSE s1
      s3 == Recur(s2, 2, d, v)
      s4 == IF d >= 2 THEN Swap(s3) ELSE s3
      \* term d is in g0; the other one is free: finishing stages, then the result
      s5 == Ok(s4, s4.mem[s4.g0] = Term(d, v))
      s6 == Put(Put(s5, s5.g1, <<"y", v + 1>>), s5.g0, <<"f", v + 1>>)
  IN s6
Rests == {<<a, b, c>> \in (1 .. 5) \X (1 .. 5) \X (1 .. 5) : Cardinality({a, b, c} \cup {own[1], own[2]}) = 5}
\* the work buffers, in the order in which the code takes them: any order
After(d) == LET r == CHOOSE x \in Rests : TRUE IN Kernel(own, r, holds, d, nacc)

Start0 == [b \in 1 .. 5 |-> IF b = 1 THEN <<"y", 0>> ELSE IF b = 2 THEN <<"f", 0>> ELSE <<"work">>]
Init == InitVars(<<1, 2>>, [b \in 1 .. 5 |-> <<"work">>])
GrowSteps(a) == {k \in 1 .. facmax * a : rejected => k <= a}
Capped(k) == IF k > TMax THEN TMax ELSE k
MCNext ==
  \/ \E a, b \in 0 .. TMax, h0 \in 0 .. TMax + 1 : pc = "idle" /\ Start(a, b, h0, <<1, 2>>, Start0)
  \/ \E r \in 0 .. RhoMax : (nsteps = 0 \/ rejected \/ since >= 1) /\ ~fresh /\ Ask(r)
  \/ pc = "ready" /\ ~TooSmall(Wanted(h)) /\ Prepare(Used(h, rho), DegreeFor(StagesUsed(h, rho)))
  \/ pc = "try" /\ LET s == After(deg) IN s.ok /\
       \/ \E k \in GrowSteps(h) : Accept(t + h, Capped(k), 0, <<s.g1, s.g0>>, s.mem)
       \/ \E k \in 0 .. h - 1 : Reject(k, s.mem)
  \/ GiveUp
KernelOk == pc = "try" => After(deg).ok
View == <<pc, t, tend, h, deg, rho, fresh, since, rejected, facmax, own, holds, nacc>>
Spec == Init /\ [][MCNext]_kvars /\ WF_kvars(MCNext)
Terminates == <>(pc \in {"done", "exc"})
=============================================================================
