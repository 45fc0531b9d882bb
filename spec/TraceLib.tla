------------------------------ MODULE TraceLib ------------------------------
(* Reading of recorded executions, common to the trace specifications.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Num

Traces == JsonDeserialize(IOEnv.TRACES)   \* a sequence of histories
Prop == IOEnv.PROP                        \* the property which is decided

\* labels of what went wrong: <<property, what>>; "ALL" concerns every property
If(c, p, w) == IF c THEN {<<p, w>>} ELSE {}
\* "c must hold"
Must(c, p, w) == IF c THEN {} ELSE {<<p, w>>}
Enforced(b) == IF Prop = "ANY" THEN b ELSE {z \in b : z[1] \in {Prop, "ALL"}}
=============================================================================
