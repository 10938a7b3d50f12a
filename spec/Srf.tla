-------------------------------- MODULE Srf --------------------------------
(* A call site of a set-returning SQL function.  idle: no scan; else the     *)
(* rows of the library answer the scan was opened on and how many were given.*)
EXTENDS Integers, Sequences
Idle == [open |-> FALSE, rows |-> <<>>, pos |-> 0]
\* what one call of the function has to give: a row, or the end
Opened(s, lib) == IF s.open THEN s ELSE [open |-> TRUE, rows |-> lib, pos |-> 0]
GivesRow(s) == s.pos < Len(s.rows)
Row(s) == s.rows[s.pos + 1]
AfterCall(s) == IF GivesRow(s) THEN [s EXCEPT !.pos = @ + 1] ELSE Idle
Stopped(s) == Idle
=============================================================================
