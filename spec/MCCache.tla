------------------------------ MODULE MCCache ------------------------------
(* The cache call by call, with its four places and the next to be replaced: *)
(* the transitions are printed and walked in the real code.                  *)
EXTENDS Cache, TLC, Json
CONSTANTS Pairs, Bad       \* numbers of loadable and of unloadable pairs
VARIABLES slots, next, queue, call
vars == <<slots, next, queue, call>>
Seen == <<slots, next>>
P(n) == [l |-> ToString(n), g |-> ""]
Init == slots = <<0, 0, 0, 0>> /\ next = 0 /\ queue = <<>> /\ call = 0
Hit(n) == \E k \in 1..Cap : slots[k] = n
Good(n) == /\ call' = n
           /\ IF Hit(n) THEN UNCHANGED <<slots, next>>
              ELSE slots' = [slots EXCEPT ![next + 1] = n] /\ next' = (next + 1) % Cap
           /\ queue' = After(queue, P(n))
Failing(n) == call' = n /\ UNCHANGED <<slots, next, queue>>
End == call' = 0 /\ slots' = <<0, 0, 0, 0>> /\ next' = 0 /\ queue' = <<>>
Next == (\E n \in Pairs : Good(n)) \/ (\E n \in Bad : Failing(n)) \/ End
Spec == Init /\ [][Next]_vars
Order == SelectSeq([n \in 1..Cap |-> slots[((next + n - 1) % Cap) + 1]], LAMBDA x : x # 0)
Refines == [n \in 1..Len(Order) |-> P(Order[n])] = queue
Edge == [][PrintT("EDGE " \o ToJson([a |-> <<slots, next>>, b |-> <<slots', next'>>, c |-> call']))]_vars
=============================================================================
