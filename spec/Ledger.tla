------------------------------- MODULE Ledger -------------------------------
(* Who holds memory.  The caller owns the handles it opened (a lexicon, a    *)
(* grammar, a statement) and nothing else once it has released the texts and *)
(* rows it was given.  What a handle holds may grow with what it was used    *)
(* for (a lexicon makes its recognizers when they are first needed), so the  *)
(* memory held by the process is a function of the open handles, what they   *)
(* were loaded from and which uses they have seen - and of nothing else: not *)
(* of how often, not of calls that failed, not of handles closed meanwhile.  *)
(*                                                                           *)
(* state : open  handle -> <<content, uses>>;  level  sequence of            *)
(*         [k |-> open, b |-> bytes], learned as the history goes on         *)
(* call  : [how, h, c, u, ok, heap]                                          *)
(*   how   "open" handle h on content c (replacing what h was)               *)
(*         "use" the handles in h for use u, "edit" handle h, which has the  *)
(*         content c then, "close" handle h, "none": a call on no handle     *)
(*   ok    FALSE when the call failed;  heap  bytes held after it, or -1     *)
(* A use that failed may have prepared the handle in part: what it holds is  *)
(* known again after the next use that succeeds.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [open |-> <<>>, level |-> <<>>]
Put(f, h, x) == [y \in DOMAIN f \cup {h} |-> IF y = h THEN x ELSE f[y]]
Del(f, h) == [y \in DOMAIN f \ {h} |-> f[y]]
Elem(s, x) == \E n \in 1..Len(s) : s[n] = x

PART == "(in part)"
With(us, u, ok) == IF ok THEN (us \cup {u}) \ {PART} ELSE IF u \in us THEN us ELSE us \cup {PART}
RECURSIVE Used(_, _, _, _)
Used(o, hs, x, n) ==
  IF n > Len(hs) THEN o
  ELSE Used(IF hs[n] \in DOMAIN o THEN [o EXCEPT ![hs[n]] = <<@[1], With(@[2], x.u, x.ok)>>] ELSE o, hs, x, n + 1)
Vague(o) == \E h \in DOMAIN o : PART \in o[h][2]

Open(o, x) ==
  CASE x.how = "open" -> IF x.ok THEN Put(o, x.h[1], <<x.c, {}>>) ELSE Del(o, x.h[1])
    [] x.how = "use" -> Used(o, x.h, x, 1)
    [] x.how = "edit" -> IF x.h[1] \in DOMAIN o THEN [o EXCEPT ![x.h[1]] = <<x.c, {}>>] ELSE o
    [] x.how = "close" -> Del(o, x.h[1])
    [] OTHER -> o

Knows(st, k) == \E n \in 1..Len(st.level) : st.level[n].k = k
Level(st, k) == st.level[CHOOSE n \in 1..Len(st.level) : st.level[n].k = k].b
After(st, x) ==
  LET o == Open(st.open, x)
  IN  [open |-> o, level |-> IF x.heap < 0 \/ Vague(o) \/ Knows(st, o) THEN st.level ELSE Append(st.level, [k |-> o, b |-> x.heap])]
\* 0, or how many bytes too much (or too little) the process holds
Off(st, x) ==
  LET o == Open(st.open, x)
  IN  IF x.heap < 0 \/ Vague(o) \/ ~Knows(st, o) \/ Level(st, o) = x.heap THEN 0 ELSE x.heap - Level(st, o)
=============================================================================
