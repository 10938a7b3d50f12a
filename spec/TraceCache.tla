----------------------------- MODULE TraceCache -----------------------------
(* Recorded statements against Cache.tla.  c.calls is the history:           *)
(*   [op "call", site, l, g, ok, k, ev, ans, due]: one as_standardize        *)
(*   [op "end", st, ev]: the statement ends;  c.home: site -> statement      *)
(* ev lists what happened to lexicons and grammars: newl/newg id, freel/freeg*)
(* id, use lid gid (0: no live object), badfree.                             *)
(* c.want is the property to judge by.                                       *)
EXTENDS Cache, Judging

\* what is known: born: id -> the call it was made in; live ids; q: site -> expected residents
\* (with their ids); the walk stops at the first thing that is wrong
Ids(ev, kinds) == {ev[n][2] : n \in {m \in 1..Len(ev) : ev[m][1] \in kinds}}
Seqs(ev, kinds) == SelectSeq(ev, LAMBDA e : e[1] \in kinds)
Born(b, x, ev) == [y \in DOMAIN b \cup Ids(ev, {"newl", "newg"}) |->
                    IF y \in Ids(ev, {"newl"}) THEN [k |-> "l", c |-> x.l, site |-> x.site]
                    ELSE IF y \in Ids(ev, {"newg"}) THEN [k |-> "g", c |-> x.g, site |-> x.site] ELSE b[y]]

\* frees and uses in order: only of what is alive
RECURSIVE Alive(_, _, _)
Alive(live, ev, n) ==
  IF n > Len(ev) THEN [bad |-> "", live |-> live]
  ELSE LET e == ev[n] IN
    CASE e[1] \in {"newl", "newg"} -> Alive(live \cup {e[2]}, ev, n + 1)
      [] e[1] \in {"freel", "freeg"} -> IF e[2] \in live THEN Alive(live \ {e[2]}, ev, n + 1) ELSE [bad |-> "freed twice", live |-> live]
      [] e[1] = "badfree" -> [bad |-> "something is freed that is not allocated", live |-> live]
      [] e[1] = "use" -> IF e[2] \in live /\ e[3] \in live THEN Alive(live, ev, n + 1) ELSE [bad |-> "used after it was freed", live |-> live]
      [] OTHER -> Alive(live, ev, n + 1)

Start0 == [born |-> <<>>, live |-> {}, q |-> <<>>]
Q(st, s) == IF s \in DOMAIN st.q THEN st.q[s] ELSE <<>>
SetQ(st, s, v) == [y \in DOMAIN st.q \cup {s} |-> IF y = s THEN v ELSE st.q[y]]
IdsOf(q) == UNION {{q[n].lid, q[n].gid} : n \in 1..Len(q)}
LiveIn(b, live, site) == {y \in live : b[y].site = site}

\* ---- C15: who is alive ----
Lives(st, x, b, a) ==
  LET q == Q(st, x.site)
      nl == Seqs(x.ev, {"newl"})  ng == Seqs(x.ev, {"newg"})
      expect == IF ~x.ok \/ Resident(q, x.l, x.g) THEN q
                ELSE IF Len(nl) # 1 \/ Len(ng) # 1 THEN q
                ELSE Added(q, [l |-> x.l, g |-> x.g, lid |-> nl[1][2], gid |-> ng[1][2]])
      here == LiveIn(b, a.live, x.site)
      mine == {y \in here : y \notin IdsOf(expect)}
  IN  [q |-> expect,
       why |-> IF a.bad # "" THEN a.bad
               ELSE IF ~x.ok /\ x.k # "err" THEN "no error for a lexicon or grammar that cannot be loaded"
               ELSE IF x.ok /\ x.k = "err" THEN "an error for a sound lexicon and grammar"
               ELSE IF Cardinality({y \in here : b[y].k = "l"}) > Cap \/ Cardinality({y \in here : b[y].k = "g"}) > Cap THEN "more than four standardizers are resident"
               ELSE IF IdsOf(expect) \ here # {} THEN "a standardizer was released too early"
               ELSE IF mine # {} THEN "a standardizer that should be gone is still there"
               ELSE ""]

\* ---- C14: the right one ----
Uses(x) == Seqs(x.ev, {"use"})
Right(st, x, b) ==
  LET us == Uses(x)
      \* resident: both parts alive at the beginning of the call
      here == LiveIn(st.born, st.live, x.site)
      had == (\E y \in here : st.born[y].k = "l" /\ st.born[y].c = x.l) /\ (\E y \in here : st.born[y].k = "g" /\ st.born[y].c = x.g)
             /\ \E n \in 1..Len(Q(st, x.site)) : LET e == Q(st, x.site)[n] IN e.l = x.l /\ e.g = x.g /\ e.lid \in st.live /\ e.gid \in st.live
  IN  IF x.k = "err" THEN (IF x.ok THEN "an error for a sound lexicon and grammar" ELSE "")
      ELSE IF ~x.ok THEN "an answer for a lexicon or grammar that cannot be loaded"
      ELSE IF x.ans # x.due THEN "the answer is not that of the given lexicon and grammar"
      ELSE IF \E n \in 1..Len(us) : us[n][2] # 0 /\ us[n][2] \in DOMAIN b /\ b[us[n][2]].c # x.l THEN "the lexicon of another call was used"
      ELSE IF \E n \in 1..Len(us) : us[n][3] # 0 /\ us[n][3] \in DOMAIN b /\ b[us[n][3]].c # x.g THEN "the grammar of another call was used"
      ELSE IF had /\ Seqs(x.ev, {"newl", "newg"}) # <<>> THEN "a resident standardizer was made again"
      ELSE ""

RECURSIVE Walk(_, _, _)
Walk(c, st, n) ==
  IF n > Len(c.calls) THEN ""
  ELSE
  LET x == c.calls[n]
      b == IF x.op = "call" THEN Born(st.born, x, x.ev) ELSE st.born
      a == Alive(st.live, x.ev, 1)
  IN
  IF x.op = "end" THEN
    LET left == {y \in a.live : b[y].site \in {s \in DOMAIN c.home : c.home[s] = x.st}}
        over == {y \in st.live \ a.live : c.home[b[y].site] # x.st}
        w == IF c.want # "C15" THEN "" ELSE IF a.bad # "" THEN a.bad
             ELSE IF left # {} THEN "standardizers are left when the statement ends"
             ELSE IF over # {} THEN "the end of a statement released what another one holds" ELSE ""
    IN  IF w # "" THEN w \o " (call " \o ToString(n) \o ")"
        ELSE Walk(c, [born |-> b, live |-> a.live, q |-> [s \in DOMAIN st.q |-> IF c.home[s] = x.st THEN <<>> ELSE st.q[s]]], n + 1)
  ELSE
    LET ls == Lives(st, x, b, a)
        w == IF c.want = "C15" THEN ls.why ELSE Right(st, x, b)
    IN  IF w # "" THEN w \o " (call " \o ToString(n) \o ")"
        ELSE Walk(c, [born |-> b, live |-> a.live, q |-> SetQ(st, x.site, ls.q)], n + 1)

\* c.mem: the memory in use each time a history has run again
Steady(m) == \A k \in {"heap", "stmt"} : \E n \in 1..(Len(m) - 1) : m[n + 1][k] <= m[n][k]
Why(c) == IF "mem" \in DOMAIN c THEN (IF Steady(c.mem) THEN "" ELSE "every repetition of the same calls takes more memory")
          ELSE Walk(c, Start0, 1)
Inv == Report(Why(Cases[i]))
=============================================================================
