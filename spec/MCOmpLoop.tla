----------------------------- MODULE MCOmpLoop -----------------------------
(* The loops of Rock4: g[i] <- x[i] + 2 g[i], then a sum of x[i] g[i] with one *)
(* partial sum per thread, combined in a critical section.  All the ways of    *)
(* giving the iterations to the threads, all the interleavings.                *)
EXTENDS OmpLoop
CONSTANTS N, T
VARIABLES part,   \* iteration -> thread
          pc,     \* thread -> <<stage, iteration>>
          x, g, ret, reg, psum, lock, loop
mvars == <<part, pc, x, g, ret, reg, psum, lock, loop>>
Mine(t, i) == {j \in i .. N : part[j] = t}
First(t, i) == IF Mine(t, i) = {} THEN N + 1 ELSE CHOOSE j \in Mine(t, i) : \A k \in Mine(t, i) : j <= k
Stage0(t, i) == IF First(t, i) > N THEN <<IF loop = 1 THEN "end" ELSE "lock", 0>> ELSE <<"x", First(t, i)>>
Set(t, v) == pc' = [pc EXCEPT ![t] = v]
Init == /\ InitLoop /\ part \in [1 .. N -> 1 .. T] /\ x = [i \in 1 .. N |-> 3 * i - 2] /\ g = [i \in 1 .. N |-> 10 * i]
        /\ ret = 0 /\ reg = [t \in 1 .. T |-> 0] /\ psum = [t \in 1 .. T |-> 0] /\ lock = 0 /\ loop = 0 /\ pc = [t \in 1 .. T |-> <<"end", 0>>]
Fork == /\ phase = "serial" /\ loop < 2 /\ Begin(N) /\ loop' = loop + 1
        /\ pc' = [t \in 1 .. T |-> LET q == {j \in 1 .. N : part[j] = t} IN
                    IF q = {} THEN <<IF loop = 0 THEN "end" ELSE "lock", 0>> ELSE <<"x", CHOOSE j \in q : \A k \in q : j <= k>>]
        /\ UNCHANGED <<part, x, g, ret, reg, psum, lock>>
\* thread t
ReadX(t) == /\ pc[t][1] = "x" /\ Access(t, "r", 1, pc[t][2], FALSE) /\ reg' = [reg EXCEPT ![t] = x[pc[t][2]]]
            /\ Set(t, <<"g", pc[t][2]>>) /\ UNCHANGED <<part, x, g, ret, psum, lock, loop>>
ReadG(t) == /\ pc[t][1] = "g" /\ Access(t, "r", 2, pc[t][2], FALSE)
            /\ LET i == pc[t][2] IN
               IF loop = 1 THEN reg' = [reg EXCEPT ![t] = @ + 2 * g[i]] /\ Set(t, <<"w", i>>) /\ psum' = psum
               ELSE psum' = [psum EXCEPT ![t] = @ + reg[t] * g[i]] /\ Set(t, Stage0(t, i + 1)) /\ reg' = reg
            /\ UNCHANGED <<part, x, g, ret, lock, loop>>
WriteG(t) == /\ pc[t][1] = "w" /\ Access(t, "w", 2, pc[t][2], FALSE) /\ g' = [g EXCEPT ![pc[t][2]] = reg[t]]
             /\ Set(t, Stage0(t, pc[t][2] + 1)) /\ UNCHANGED <<part, x, ret, reg, psum, lock, loop>>
Lock(t) == pc[t][1] = "lock" /\ lock = 0 /\ lock' = t /\ Set(t, <<"sumr", 0>>) /\ UNCHANGED <<lvars, part, x, g, ret, reg, psum, loop>>
SumR(t) == pc[t][1] = "sumr" /\ Access(t, "r", 0, 1, TRUE) /\ reg' = [reg EXCEPT ![t] = ret] /\ Set(t, <<"sumw", 0>>) /\ UNCHANGED <<part, x, g, ret, psum, lock, loop>>
SumW(t) == pc[t][1] = "sumw" /\ Access(t, "w", 0, 1, TRUE) /\ ret' = reg[t] + psum[t] /\ Set(t, <<"unlock", 0>>) /\ UNCHANGED <<part, x, g, reg, psum, lock, loop>>
Unlock(t) == pc[t][1] = "unlock" /\ lock' = 0 /\ Set(t, <<"end", 0>>) /\ UNCHANGED <<lvars, part, x, g, ret, reg, psum, loop>>
Join == /\ phase = "par" /\ (\A t \in 1 .. T : pc[t][1] = "end") /\ End /\ UNCHANGED mvars
MCNext == Fork \/ Join \/ \E t \in 1 .. T : ReadX(t) \/ ReadG(t) \/ WriteG(t) \/ Lock(t) \/ SumR(t) \/ SumW(t) \/ Unlock(t)
Spec == Init /\ [][MCNext]_<<lvars, mvars>> /\ WF_<<lvars, mvars>>(MCNext)
G1(i) == 3 * i - 2 + 20 * i
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + (3 * i - 2) * G1(i)
\* the results are those of the serial loops
Serial == /\ (phase = "serial" /\ loop >= 1 => \A i \in 1 .. N : g[i] = G1(i))
          /\ (phase = "serial" /\ loop = 2 => ret = Sum(N))
Ends == <>(phase = "serial" /\ loop = 2)
=============================================================================
