------------------------------- MODULE MCSrf -------------------------------
(* Interleaved scans of several call sites in one statement.                 *)
EXTENDS Srf, TLC, Json
CONSTANTS Sites, Counts
VARIABLES s, given, last
vars == <<s, given, last>>
Rows(n) == [k \in 1..n |-> k]
Init == s = [x \in Sites |-> Idle] /\ given = [x \in Sites |-> <<>>] /\ last = [x |-> "", c |-> 0]
Call(x, n) ==
  LET o == Opened(s[x], Rows(n)) IN
  /\ s[x].open => n = Len(s[x].rows)                  \* the executor passes the same arguments again
  /\ s' = [s EXCEPT ![x] = AfterCall(o)]
  /\ given' = [given EXCEPT ![x] = IF GivesRow(o) THEN (IF s[x].open THEN @ ELSE <<>>) \o <<Row(o)>> ELSE <<>>]
  /\ last' = [x |-> x, c |-> n]
Stop(x) == s[x].open /\ s' = [s EXCEPT ![x] = Stopped(s[x])] /\ given' = [given EXCEPT ![x] = <<>>] /\ last' = [x |-> x, c |-> 0 - 1]
Next == \E x \in Sites : Stop(x) \/ \E n \in Counts : Call(x, n)
Spec == Init /\ [][Next]_vars
\* the rows given by a scan so far are the first rows of its answer, each once, in order
Prefix == \A x \in Sites : given[x] = SubSeq(s[x].rows, 1, s[x].pos)
Apart == [][\A x \in Sites : x # last'.x => s'[x] = s[x]]_vars
Complete == [][\A x \in Sites : s[x].open /\ ~s'[x].open /\ last'.c >= 0 => s[x].pos = Len(s[x].rows)]_vars
Edge == [][PrintT("EDGE " \o ToJson([a |-> [x \in Sites |-> <<s[x].open, Len(s[x].rows), s[x].pos>>], b |-> [x \in Sites |-> <<s'[x].open, Len(s'[x].rows), s'[x].pos>>], c |-> last']))]_vars
Seen == s
=============================================================================
