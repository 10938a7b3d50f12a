----------------------------- MODULE TraceTrie -----------------------------
(* Tries of the implementation against the dictionaries they stand for.      *)
(*   c.adds words added, c.q: probes [w, word, pre, st], c.words, c.m: which *)
(*   probes match the expression wholly, c.size: words counted, c.g: [t, m] longest match at the    *)
(*   start of a text                                                         *)
EXTENDS Trie, Judging

Why(c) ==
  LET D == ToSet(c.adds) \ {<<>>}
  IN  IF c.size # Len(SelectSeq(c.adds, LAMBDA w : w # <<>>)) THEN "another number of words added"
      ELSE IF ToSet(c.words) # D \/ Len(c.words) # Cardinality(D) THEN "other words"
      ELSE IF \E n \in 1..Len(c.q) : c.q[n].word # IsWordIn(D, c.q[n].w) THEN "isWord"
      ELSE IF \E n \in 1..Len(c.q) : c.q[n].pre # IsPrefixIn(D, c.q[n].w) THEN "isPrefix"
      ELSE IF \E n \in 1..Len(c.q) : ToSet(c.q[n].st) # StartingWith(D, c.q[n].w) \/ Len(c.q[n].st) # Cardinality(StartingWith(D, c.q[n].w)) THEN "words starting with"
      ELSE IF D # {} /\ \E n \in 1..Len(c.q) : c.q[n].m # (c.q[n].w \in D) THEN "the expression matches other words"
      ELSE IF \E n \in 1..Len(c.g) : c.g[n].m # LongestAt(D, c.g[n].t) THEN "the expression finds another word at the start of a text"
      ELSE ""
Inv == Report(Why(Cases[i]))
=============================================================================
