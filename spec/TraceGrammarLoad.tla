-------------------------- MODULE TraceGrammarLoad --------------------------
(* Records of the implementation's grammar reader against GrammarLoad.tla.   *)
(*   k = "load" : ls lines (texts), exc "" or the reason it was refused,     *)
(*                status, issues, dump                                       *)
(*   k = "again": ls, d1 its text, d2 the text of the grammar read from d1,  *)
(*                s1, s2 the two states                                      *)
(*   k = "rule" : l line, in, out, v, dump, or exc                           *)
EXTENDS GrammarLoad, Judging

CheckLoad(c) ==
  LET st == Loaded(c.ls)
      v == Verdict(st)
  IN  IF v.err # "" /\ c.exc = "" THEN "a grammar is accepted that has to be refused: " \o v.err
      ELSE IF v.err = "" /\ c.exc # "" THEN "a correct grammar is refused: " \o c.exc
      ELSE IF v.err # c.exc THEN "refused for another reason: " \o v.err
      ELSE IF v.err # "" THEN ""
      ELSE IF c.status # v.status THEN "other state"
      ELSE IF c.issues # v.issues THEN "other issues"
      ELSE IF c.dump # GrammarText(st) THEN "the grammar read is another one"
      ELSE ""

\* sections whose meta lines are all malformed have no text of their own
WholeMetas(st) == LET s == Close(st) IN \A n \in 1..Len(s.metas) : s.metas[n].b # <<>>
CheckAgain(c) ==
  LET st == Loaded(c.ls)
  IN  IF Verdict(st).err # "" \/ ~WholeMetas(st) THEN ""
      ELSE IF c.exc # "" THEN "the text of an accepted grammar is refused: " \o c.exc
      ELSE IF c.d1 # GrammarText(st) THEN "the text is not that of the grammar"
      ELSE IF c.d2 # c.d1 THEN "the text does not read back as the same grammar"
      ELSE IF c.s1 # c.s2 THEN "the state changes when the text is read back"
      ELSE ""

CheckRule(c) ==
  LET r == RuleOf(c.l)
  IN  IF ~ValidRule(r) THEN IF c.exc = "Rule-Not-Valid(" \o Str(c.l) \o ")" THEN "" ELSE "an invalid rule is not refused"
      ELSE IF c.exc # "" THEN "a valid rule is refused"
      ELSE IF c.in # r.in \/ c.out # r.out \/ c.v # r.v THEN "the rule read is another one"
      ELSE IF c.dump # RuleText(r) THEN "the text is not that of the rule"
      ELSE IF ~c.same THEN "the text of the rule does not read back as the rule"
      ELSE ""

Why(c) == CASE c.k = "load" -> CheckLoad(c)
            [] c.k = "again" -> CheckAgain(c)
            [] c.k = "rule" -> CheckRule(c)
Inv == Report(Why(Cases[i]))
=============================================================================
