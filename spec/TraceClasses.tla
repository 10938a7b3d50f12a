---------------------------- MODULE TraceClasses ----------------------------
(* The names and numbers of classes, attachments and languages.              *)
EXTENDS Classes, Judging

InText(S) == JoinWith(SelectSeq(Append(InNames, BAD), LAMBDA c : c \in S), ",")
AttOrder == << "DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF" >>
AttText(a) == JoinWith(SelectSeq(AttOrder, LAMBDA c : c \in a), ",")

CheckName(c) ==
  LET s == Str(c.n)
  IN  IF c.in1 # InOf(s) \/ c.inN # InNum(s) THEN "input class of a name"
      ELSE IF c.out1 # OutOf(s) \/ c.outN # OutNum(s) THEN "output class of a name"
      ELSE IF ToSet(c.inset) # InSet(c.n) \/ Len(c.inset) # Cardinality(InSet(c.n)) THEN "input classes of a list"
      ELSE IF ToSet(c.attset) # AttSet(c.n) THEN "attachments of a list"
      ELSE IF c.instr # InText(InSet(c.n)) THEN "text of a set of input classes"
      ELSE IF c.attstr # AttText(AttSet(c.n)) THEN "text of a set of attachments"
      ELSE IF c.lang # LangOf(s) \/ c.langname # LangName(LangOf(s)) THEN "language of a name"
      ELSE ""
CheckNum(c) == IF c.in # InOfNum(c.n) THEN "input class of a number" ELSE IF c.out # OutOfNum(c.n) THEN "output class of a number" ELSE ""

Why(c) == CASE c.k = "name" -> CheckName(c) [] c.k = "num" -> CheckNum(c)
Inv == Report(Why(Cases[i]))
=============================================================================
