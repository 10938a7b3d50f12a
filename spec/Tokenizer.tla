----------------------------- MODULE Tokenizer -----------------------------
(* Cutting a canonical text into classified tokens.                          *)
EXTENDS Classify

IsLead(c) == IsSpace(c) \/ c = "—"
IsSep(c) == ~IsWordChar(c)
IsAsciiWs(c) == c \in {" ", "\t", "\n", "\r", "\f", Uni.vt}
Boundary(t, j) == j > Len(t) \/ IsSep(t[j])           \* a token may end before position j

SameCI(a, b) == a = b \/ UpChar(a) = UpChar(b)
KeyAt(k, t, i) == /\ i + Len(k) - 1 <= Len(t)
                  /\ \A j \in 1..Len(k) : SameCI(k[j], t[i + j - 1])

\* the longest lexicon key that stands at i and ends at a boundary: position after it (i: none)
KeyEnd(t, i, lex) ==
  LET E == {i + Len(lex[n].w) : n \in {m \in 1..Len(lex) : lex[m].w # <<>> /\ KeyAt(lex[m].w, t, i) /\ Boundary(t, i + Len(lex[m].w))}}
  IN  IF E = {} THEN i ELSE Max(E)

\* a number with one of / , . inside, ending at a boundary
NumEnd(t, i) ==
  LET a == SkipWhile(t, i, IsDigit)
      b == SkipWhile(t, a + 1, IsDigit)
  IN  IF a > i /\ a <= Len(t) /\ t[a] \in {"/", ",", "."} /\ b > a + 1 /\ Boundary(t, b) THEN b ELSE i

WordEnd(t, i) == SkipWhile(t, i, IsWordChar)

TokenEnd(t, i, lex) ==
  LET k == KeyEnd(t, i, lex)
      n == NumEnd(t, i)
  IN  IF k > i THEN k ELSE IF n > i THEN n ELSE WordEnd(t, i)

(* ---- splitting a word that is not in the lexicon ------------------------- *)
IsDigitsLetter(t) == Len(t) >= 2 /\ IsLetter(Last(t)) /\ AllDigits(SubSeq(t, 1, Len(t) - 1))
IsLetterDigits(t) == Len(t) >= 2 /\ IsLetter(t[1]) /\ AllDigits(SubSeq(t, 2, Len(t)))

SplitMixed(t) ==
  IF IsDigitsLetter(t) THEN << SubSeq(t, 1, Len(t) - 1), <<Last(t)>> >>
  ELSE IF IsLetterDigits(t) THEN << <<t[1]>>, SubSeq(t, 2, Len(t)) >>
  ELSE << t >>

HasAtt(e, a) == \E j \in 1..Len(e.a) : e.a[j] = a
AttKeys(lex, a) == {lex[n].w : n \in {m \in 1..Len(lex) : HasAtt(lex[m], a)}}

\* length of the attached prefix / suffix to cut off (0: none)
PrefixLen(t, lex) ==
  LET S == {n \in 1..(Len(t) - 1) : SubSeq(t, 1, n) \in AttKeys(lex, "ATT_PRE") /\ (IsRxWord(t[n]) <=> IsRxWord(t[n + 1]))}
  IN  IF S = {} THEN 0 ELSE Max(S)
SuffixLen(t, lex) ==
  LET S == {n \in 1..(Len(t) - 1) : SubSeq(t, Len(t) - n + 1, Len(t)) \in AttKeys(lex, "ATT_SUF")}
  IN  IF S = {} THEN 0 ELSE Min(S)

SplitAffix(t, lex) ==
  LET n == Len(t)
      p == PrefixLen(t, lex)
      s == SuffixLen(t, lex)
      front == SubSeq(t, 1, n - s)
      tail == SubSeq(t, n - s + 1, n)
  IN  IF p = 0 /\ s = 0 THEN << >>
      ELSE IF p = 0 \/ (s > 0 /\ p + s > n) THEN << front, tail >>
      ELSE IF s = 0 \/ p + s = n THEN << SubSeq(t, 1, p), SubSeq(t, p + 1, n) >>
      ELSE << SubSeq(t, 1, p), SubSeq(t, p + 1, n - s), tail >>

\* the tokens a word becomes
Pieces(tok, lex) == IF "MIXED" \in tok.c THEN SplitMixed(tok.t) ELSE SplitAffix(tok.t, lex)
SplitToken(tok, lex) == LET ps == Pieces(tok, lex) IN [i \in 1..Len(ps) |-> Classified(ps[i], lex, "WORD")]

WordTokens(t, lex) ==
  LET tok == Classified(t, lex, "WORD")
      ps == SplitToken(tok, lex)
  IN  IF tok.l \/ ps = <<>> THEN <<tok>> ELSE ps

SepToken(t, lex) ==
  LET x == Trim(t, IsAsciiWs)
  IN  Classified(IF x = <<>> THEN <<" ">> ELSE x, lex, "PUNCT")

(* ---- the transition system ---------------------------------------------- *)
\* one step cuts one token and the separator behind it; cuts records what was cut, verbatim
TokStart == [pos |-> 1, toks |-> <<>>, cuts |-> <<>>]
Cut(st, t, lex) ==
  LET i == SkipWhile(t, st.pos, IsLead)
      e == TokenEnd(t, i, lex)
      s == SkipWhile(t, e, IsSep)
      word == SubSeq(t, i, e - 1)
      sep == SubSeq(t, e, s - 1)
  IN  [pos |-> s,
       toks |-> st.toks \o (IF word = <<>> THEN <<>> ELSE WordTokens(word, lex))
                        \o (IF sep = <<>> THEN <<>> ELSE <<SepToken(sep, lex)>>),
       cuts |-> st.cuts \o (IF word = <<>> THEN <<>> ELSE <<word>>) \o (IF sep = <<>> THEN <<>> ELSE <<sep>>)]
More(st, t) == st.pos <= Len(t)

RECURSIVE Scan(_, _, _)
Scan(st, t, lex) == IF More(st, t) THEN Scan(Cut(st, t, lex), t, lex) ELSE st

(* ---- filter and alternatives --------------------------------------------- *)
Filtered(toks, filter) == SelectSeq(toks, LAMBDA x : x.c \cap filter = {})

RawTokens(t, lex) == Scan(TokStart, t, lex).toks
Tokens(t, lex, filter) == Filtered(RawTokens(t, lex), filter)

IsBlank(c) == c = " "
SplitWords(tok) == SplitRuns(Trim(tok.t, IsBlank), " ", 1, <<>>)
Splittable(tok) == Len(SplitWords(tok)) > 1

\* the alternative with the splittable tokens of S (a set of positions) split
AltPhrase(toks, S, lex, filter) ==
  Filtered(Flatten([i \in 1..Len(toks) |->
     IF i \in S THEN LET w == SplitWords(toks[i]) IN [j \in 1..Len(w) |-> Classified(w[j], lex, "WORD")]
     ELSE <<toks[i]>>]), filter)
SplitPositions(toks) == {i \in 1..Len(toks) : Splittable(toks[i])}

\* in the order of the implementation's counter: the first splittable token changes fastest
Numbered(n, P) == {p \in P : (n \div (2^Cardinality({q \in P : q < p}))) % 2 = 1}
AltsOver(P, toks, lex, filter) == [n \in 1..(2^Cardinality(P) - 1) |-> AltPhrase(toks, Numbered(n, P), lex, filter)]
Alternatives(toks, lex, filter) == AltsOver(SplitPositions(toks), toks, lex, filter)

Phrases(t, lex, filter) == LET p == Tokens(t, lex, filter) IN <<p>> \o Alternatives(p, lex, filter)
=============================================================================
