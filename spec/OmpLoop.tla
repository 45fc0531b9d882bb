------------------------------ MODULE OmpLoop ------------------------------
(***************************************************************************)
(* One parallel region of Rock4: threads share vectors (numbered from 1,   *)
(* elements from 1) and other cells (vector 0).  Actions: Begin, Access    *)
(* (one access of one thread: "r" read, "w" write, "a" atomic; locked when *)
(* made in a critical section), Barrier, End.                              *)
(* Model checked with all interleavings and all distributions of the loop  *)
(* (MCOmpLoop), and bound to the accesses recorded in the regions of the   *)
(* real code under a runtime which exchanges the threads at every access   *)
(* (OmpTrace).                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES phase,    \* "serial", "par"
          size,     \* elements of a vector
          seen,     \* accesses since the last barrier: <<thread, kind, vector, element, locked>>
          written,  \* <<vector, element, thread>>
          read      \* <<vector, element>>
lvars == <<phase, size, seen, written, read>>

InitLoop == phase = "serial" /\ size = 0 /\ seen = {} /\ written = {} /\ read = {}

Begin(n) == phase = "serial" /\ phase' = "par" /\ size' = n /\ seen' = {} /\ written' = {} /\ read' = {}

Access(t, k, v, i, lk) ==
  /\ phase = "par"
  /\ seen' = seen \cup {<<t, k, v, i, lk>>}
  /\ written' = IF k = "w" /\ v > 0 THEN written \cup {<<v, i, t>>} ELSE written
  /\ read' = IF k = "r" /\ v > 0 THEN read \cup {<<v, i>>} ELSE read
  /\ UNCHANGED <<phase, size>>
Barrier == phase = "par" /\ seen' = {} /\ UNCHANGED <<phase, size, written, read>>
End == phase = "par" /\ phase' = "serial" /\ seen' = {} /\ UNCHANGED <<size, written, read>>

Conflict(a, b) == /\ a[1] # b[1] /\ a[3] = b[3] /\ a[4] = b[4]
                  /\ a[2] # "r" \/ b[2] # "r"
                  /\ ~(a[2] = "a" /\ b[2] = "a")
                  /\ ~(a[5] /\ b[5])
\* no two threads make conflicting accesses which are not ordered
RaceFree == \A a, b \in seen : ~Conflict(a, b)
\* what the region writes, it writes entirely, each element by one thread
Whole(v) == \A i \in 1 .. size : Cardinality({w \in written : w[1] = v /\ w[2] = i}) = 1
WritesOnce == \A w \in written : Whole(w[1])
\* a region which writes no vector reads entirely those which it reads
ReadsAll == written = {} => \A r \in read : \A i \in 1 .. size : <<r[1], i>> \in read
Complete == phase = "serial" => (WritesOnce /\ ReadsAll)
=============================================================================
