------------------------------- MODULE Cache -------------------------------
(* The standardizer cache of one as_standardize call site of a statement, at *)
(* the level a caller sees: the standardizers resident, oldest first.        *)
EXTENDS Integers, Sequences, FiniteSets
Cap == 4
NoEntry == [l |-> "", g |-> ""]
Empty == <<>>
IsPair(e, l, g) == e.l = l /\ e.g = g
Resident(q, l, g) == \E n \in 1..Len(q) : IsPair(q[n], l, g)
Entry(q, l, g) == q[CHOOSE n \in 1..Len(q) : IsPair(q[n], l, g)]
\* an added standardizer replaces the oldest when all places are taken
Replaced(q) == IF Len(q) = Cap THEN {q[1]} ELSE {}
Added(q, e) == IF Len(q) = Cap THEN Append(Tail(q), e) ELSE Append(q, e)
\* a call with a pair that can be loaded; a failing call changes nothing
After(q, e) == IF Resident(q, e.l, e.g) THEN q ELSE Added(q, e)
=============================================================================
