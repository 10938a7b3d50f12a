------------------------------ MODULE Judging ------------------------------
(* The frame of the trace modules: one state per recorded case, in several   *)
(* chains so that all workers take part.  A trace module extends this one,   *)
(* defines Why(c) - "" when the specification allows the record c - and      *)
(* checks Inv == Report(Why(Cases[i])).                                      *)
EXTENDS Integers, Sequences, TLC, Json
Cases == ndJsonDeserialize("cases.ndjson")
Chains == 32
VARIABLE i
JInit == i \in 1..(IF Len(Cases) < Chains THEN Len(Cases) ELSE Chains)
JNext == i + Chains <= Len(Cases) /\ i' = i + Chains
Report(why) == why = "" \/ PrintT("MISMATCH " \o ToJson([i |-> i, why |-> why]))
=============================================================================
