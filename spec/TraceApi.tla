------------------------------ MODULE TraceApi ------------------------------
(* Recorded histories of API calls against Api.tla.                          *)
(*   c.fresh : calls made alone, each in a process of its own (learned first)*)
(*   c.calls : the history                                                   *)
(*   c.lex, c.gmr (when present) : content -> its lines; then which contents *)
(*            are refused, and the error text, are those of the load         *)
(*            specifications                                                 *)
EXTENDS Api, Judging
LL == INSTANCE LexiconLoad
GL == INSTANCE GrammarLoad

RECURSIVE LearnAll(_, _, _)
LearnAll(st, cs, n) == IF n > Len(cs) THEN st ELSE LearnAll(Learn(st, cs[n]), cs, n + 1)

LexErr(c, l) == LL!Loaded(c.lex[l]).err
GmrErr(c, g) == GL!Verdict(GL!Loaded(c.gmr[g])).err
\* the error a call has to give ("": none)
Due(c, st, x) ==
  LET ge == IF x.fn = "getg" \/ x.fn \in {"std", "match"} THEN GmrErr(c, x.g) ELSE ""
      le == IF x.fn \in OneShot \cup {"getl", "compile"} /\ FormOf(x) = "text" THEN LexErr(c, x.l) ELSE ""
  IN  IF ge # "" THEN ge ELSE le
Absolute(c) == "lex" \in DOMAIN c
Verdict(c, st, x) ==
  IF ~Absolute(c) \/ x.fn \in Frees \/ FormOf(x) \in {"old", "kept", "cut"} THEN ""
  ELSE LET d == Due(c, st, x)
       IN  IF d = "" THEN (IF x.ans.k = "err" THEN x.fn \o ": an error for sound arguments: " \o x.ans.e ELSE "")
           ELSE IF x.ans.k # "err" THEN x.fn \o ": no error although the lexicon or grammar is refused"
           ELSE IF x.ans.e # d THEN x.fn \o ": another error than the reason of the refusal" ELSE ""

\* the words of an answer are parts of the canonical address (a decimal comma is a point, any blank a space)
Plain(t) == [n \in 1..Len(t) |-> IF t[n] = "," THEN "." ELSE t[n]]
PartOf(w, t) == \E n \in 1..(Len(t) - Len(w) + 1) : At(w, t, n)
WordsOk(c, x) ==
  IF "words" \notin DOMAIN x THEN ""
  ELSE LET t == Plain(CanonIn(x.loc, x.t))
       IN  IF \A n \in 1..Len(x.words) : x.words[n] = <<" ">> \/ (Upper(x.words[n]) = x.words[n] /\ PartOf(Plain(x.words[n]), t)) THEN ""
           ELSE "a word of the answer is not in canonical form"

RECURSIVE Walk(_, _, _)
Walk(c, st, n) ==
  IF n > Len(c.calls) THEN ""
  ELSE LET x == c.calls[n]
           w == IF ~Enabled(st, x) THEN "" ELSE Judge(st, x)
           v == IF w # "" THEN w ELSE IF ~Enabled(st, x) THEN "" ELSE LET y == Verdict(c, st, x) IN IF y # "" THEN y ELSE WordsOk(c, x)
       IN  IF v # "" THEN v \o " (call " \o ToString(n) \o ")" ELSE IF Enabled(st, x) THEN Walk(c, Effect(st, x), n + 1) ELSE Walk(c, st, n + 1)
Why(c) == Walk(c, LearnAll(Start, c.fresh, 1), 1)
Inv == Report(Why(Cases[i]))
=============================================================================
