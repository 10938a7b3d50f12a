------------------------------ MODULE Pipeline ------------------------------
(* The three answers to one address: the standardized fields, the token rows *)
(* and the match rows.                                                       *)
EXTENDS Tokenizer, Search

\* the classes of a set, in class order
InOrder(cs) == SelectSeq(InNames, LAMBDA c : c \in cs) \o (IF BAD \in cs THEN <<BAD>> ELSE <<>>)
Classes(phrase) == [i \in 1..Len(phrase) |-> InOrder(phrase[i].c)]
ClassText(cs) == JoinWith(InOrder(cs), ",")

AllPhrases(text, lex, filter) == Phrases(Canon(Canon(text)), lex, filter)

\* what the chosen derivation makes of the tokens of its phrase
Assigned(phrase, d) == LET i == InOfDeriv(d)
                           o == OutOfDeriv(d)
                       IN  [n \in 1..Len(phrase) |-> [t |-> phrase[n].t, c |-> i[n], o |-> o[n]]]

RECURSIVE FieldFrom(_, _, _, _)
FieldFrom(ts, f, lex, n) ==
  IF n > Len(ts) THEN <<>>
  ELSE (IF FieldOf(ts[n].o) = f THEN << StdText(ts[n].t, ts[n].c, lex) >> ELSE <<>>) \o FieldFrom(ts, f, lex, n + 1)

\* the text of each field that has one
FieldTexts(ts, lex) ==
  LET F == {f \in Fields : \E n \in 1..Len(ts) : FieldOf(ts[n].o) = f}
  IN  [f \in F |-> JoinWith(FieldFrom(ts, f, lex, 1), " ")]

NoMatch == [none |-> TRUE]
Standardized(text, lex, g, filter) ==
  LET ps == AllPhrases(text, lex, filter)
      b == Best(g, [n \in 1..Len(ps) |-> Classes(ps[n])])
  IN  IF b.phrase = 0 THEN [none |-> TRUE, f |-> <<>>, pat |-> ""]
      ELSE [none |-> FALSE, f |-> FieldTexts(Assigned(ps[b.phrase], b.d), lex), pat |-> PatternText(b.d)]

\* token rows: pat is the phrase, from 0; seq goes on over the phrases
ParseRows(text, lex, filter) ==
  LET ps == AllPhrases(text, lex, filter)
      flat == Flatten([k \in 1..Len(ps) |-> [n \in 1..Len(ps[k]) |-> [pat |-> k - 1, w |-> ps[k][n].t, c |-> ps[k][n].c]]])
  IN  [n \in 1..Len(flat) |-> [pat |-> flat[n].pat, seq |-> n - 1, word |-> flat[n].w, inclass |-> ClassText(flat[n].c)]]

\* match rows, as a bag (only their order by score is fixed)
MatchRows(text, lex, g, filter) ==
  LET ps == AllPhrases(text, lex, filter)
      rows == AllRows(g, [n \in 1..Len(ps) |-> Classes(ps[n])])
  IN  IF rows = <<>> THEN << [t |-> NoMatchText, s |-> -1, n |-> -1] >> ELSE rows
=============================================================================
