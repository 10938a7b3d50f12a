---------------------------- MODULE TraceValues ----------------------------
(* Histories of calls on two objects of the implementation:                  *)
(*   c.kind, c.st: [op, exc, x, y], x and y as they show themselves          *)
EXTENDS Values, Judging

Listed(j, S) == ToSet(j) = S /\ Len(j) = Cardinality(S)
MicroOf(r) == r.m          \* the score in millionths
RuleAs(j, r) == j.in = r.in /\ j.out = r.out /\ MicroOf(j) = r.v

SeenToken(j, v) ==
  IF j.text # v.text \/ j.std # v.std THEN "text of a token"
  ELSE IF ~Listed(j.cls, v.cls) \/ j.size # Cardinality(v.cls) \/ j.empty # (v.cls = {}) \/ j.clstext # L!TypeText(v.cls) THEN "classes of a token"
  ELSE IF ~Listed(j.isin, v.cls) \/ j.any # (\E c \in ToSet(j.asked) : c \in v.cls) THEN "membership in classes"
  ELSE IF j.out # v.out \/ ~Listed(j.att, v.att) \/ j.atttext # L!AttText(v.att) \/ j.lex # v.lex THEN "other parts of a token"
  ELSE IF j.dump # TokenText(v) THEN "the text of a token"
  ELSE ""
SeenRule(j, v) ==
  IF ~RuleAs(j, v) \/ j.nin # Len(v.in) \/ j.nout # Len(v.out) \/ j.iter # v.in THEN "parts of a rule"
  ELSE IF j.inat # Append(v.in, BAD) \/ j.outat # Append(v.out, BAD) THEN "a class at a place"
  ELSE IF j.valid # ValidRule(v) \/ j.isempty # (v = NoRule) THEN "validity of a rule"
  ELSE IF \E n \in 1..Len(j.m2) : j.m2[n].r # Matches(v, j.m2[n].p) THEN "match of a rule"
  ELSE IF j.dump # RuleText(v) THEN "the text of a rule"
  ELSE ""
SeenEntry(j, v) ==
  IF j.w # v.w \/ j.s # v.s \/ ~Listed(j.t, v.t) \/ ~Listed(j.a, v.a) \/ ~Listed(j.isin, v.t) THEN "parts of an entry"
  ELSE IF j.flags # Flags(v) THEN "attachment predicates"
  ELSE IF j.dump # L!EntryText(v) THEN "the text of an entry"
  ELSE ""
SeenMeta(j, v) == IF j.refs # v \/ j.iter # v \/ j.size # Len(v) \/ j.dump # MetaText(v) THEN "references" ELSE ""
SeenRsec(j, v) ==
  IF j.n # v.n \/ j.size # Len(v.b) THEN "a section"
  ELSE IF Len(j.at) # Len(v.b) \/ \E n \in 1..Len(v.b) : ~RuleAs(j.at[n], v.b[n]) \/ ~RuleAs(j.iter[n], v.b[n]) \/ ~RuleAs(j.all[n], v.b[n]) THEN "rules of a section"
  ELSE IF j.beyond # "RuleSection-Range-Error" THEN "a rule beyond the end"
  ELSE IF j.dump # "[" \o v.n \o "]\n" \o JoinWith([n \in 1..Len(v.b) |-> RuleText(v.b[n]) \o "\n"], "") THEN "the text of a section"
  ELSE ""
SeenMsec(j, v) ==
  IF j.n # v.n \/ j.size # Len(v.b) THEN "a section"
  ELSE IF j.at # v.b \/ j.iter # v.b \/ j.all # v.b THEN "rules of a section"
  ELSE IF j.beyond # "MetaSection-Range-Error" THEN "a rule beyond the end"
  ELSE IF j.dump # "[" \o v.n \o "]\n" \o JoinWith([n \in 1..Len(v.b) |-> MetaText(v.b[n]) \o "\n"], "") THEN "the text of a section"
  ELSE ""
SeenCount(j, v) == IF \E n \in 1..Len(j.n) : j.n[n].v # Count(j.n[n].k, v) THEN "a counter" ELSE ""
Seen(kind, j, v) == CASE kind = "token" -> SeenToken(j, v) [] kind = "rule" -> SeenRule(j, v) [] kind = "entry" -> SeenEntry(j, v)
                      [] kind = "meta" -> SeenMeta(j, v) [] kind = "rsec" -> SeenRsec(j, v) [] kind = "msec" -> SeenMsec(j, v) [] kind = "count" -> SeenCount(j, v)

RECURSIVE Walk(_, _, _, _)
Walk(c, x, y, n) ==
  IF n > Len(c.st) THEN ""
  ELSE LET s == c.st[n]
           r == Call(c.kind, x, y, s.op)
           a == Seen(c.kind, s.x, r.x)
           b == IF c.kind = "count" THEN "" ELSE Seen(c.kind, s.y, r.y)
       IN  IF s.exc # r.exc THEN "another outcome of a call: " \o s.exc
           ELSE IF a # "" THEN a ELSE IF b # "" THEN b \o " not touched by the call"
           ELSE IF c.kind = "entry" /\ s.same # (r.x = r.y) THEN "equality of entries"
           ELSE Walk(c, r.x, r.y, n + 1)
Why(c) == Walk(c, New(c.kind), New(c.kind), 1)
Inv == Report(Why(Cases[i]))
=============================================================================
