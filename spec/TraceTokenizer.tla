--------------------------- MODULE TraceTokenizer ---------------------------
(* Records of the implementation's tokenizer against Tokenizer.tla.          *)
(*   k = "tok"   : t (canonical text), x lexicon, f filter, toks, alts       *)
(*   k = "raw"   : as tok, but t is any text: it is made canonical first     *)
(*   k = "alts"  : toks in, x, f, alts                                       *)
(*   k = "class" : t, x, d default, tok                                      *)
(*   k = "split" : t, x, tok (classified), toks                              *)
(*   k = "filt"  : toks, hist of filter operations with what each gave       *)
(*   k = "std"   : t, c class, x, s standard text                            *)
(*   k = "enum"  : p classes of each token, list of combinations             *)
EXTENDS Tokenizer, Judging

Tok(j) == [t |-> j.t, c |-> ToSet(j.c), l |-> j.l]
Toks(js) == [n \in 1..Len(js) |-> Tok(js[n])]
\* without the in-lexicon flag
Bare(ts) == [n \in 1..Len(ts) |-> [t |-> ts[n].t, c |-> ts[n].c]]
NoDup(js) == \A n \in 1..Len(js) : Cardinality(ToSet(js[n].c)) = Len(js[n].c)
\* one token is reported as what it is: do not compare the flag of a token given as input
SamePhrase(a, b) == a = b

TextOf(ts) == Flatten([n \in 1..Len(ts) |-> ts[n].t])

Texts(ts) == [n \in 1..Len(ts) |-> ts[n].t]
Asp(c, a) == \E n \in 1..Len(c.asp) : c.asp[n] = a
\* c.asp: the aspects of the answer this check is about
CheckTok(c, text) ==
  LET want == Tokens(text, c.x, ToSet(c.f))
      got == Toks(c.toks)
      alts == Alternatives(want, c.x, ToSet(c.f))
      galts == [n \in 1..Len(c.alts) |-> Toks(c.alts[n])]
      same == Texts(got) = Texts(want)
  IN  IF Asp(c, "text") /\ ~same
      THEN IF TextOf(got) # TextOf(want) THEN "the tokens do not make up the text" ELSE "the text is cut elsewhere"
      ELSE IF Asp(c, "class") /\ same /\ Bare(got) # Bare(want) THEN "a token has other classes"
      ELSE IF Asp(c, "class") /\ same /\ ~NoDup(c.toks) THEN "a class is listed twice"
      ELSE IF Asp(c, "flag") /\ same /\ Bare(got) = Bare(want) /\ got # want THEN "the found-in-lexicon flag of a token is wrong"
      ELSE IF Asp(c, "alts") /\ Bare(got) = Bare(want) /\ ~SameBag([n \in 1..Len(alts) |-> Bare(alts[n])], [n \in 1..Len(galts) |-> Bare(galts[n])])
           THEN "the alternatives are not those of the phrase"
      ELSE ""

\* two filters on the same text: the alternatives and the phrase never contain a filtered class
CheckAlts(c) ==
  LET want == Alternatives(Toks(c.toks), c.x, ToSet(c.f))
      got == [n \in 1..Len(c.alts) |-> Toks(c.alts[n])]
      B(as) == [n \in 1..Len(as) |-> Bare(as[n])]
  IN  IF SameBag(B(want), B(got)) THEN "" ELSE "the alternatives are not those of the phrase"

CheckClass(c) ==
  LET want == Classified(c.t, c.x, c.d)
  IN  IF Tok(c.tok) = want THEN "" ELSE IF ToSet(c.tok.c) # want.c THEN "other classes" ELSE "other text or flag"

CheckSplit(c) ==
  LET tok == Classified(c.t, c.x, "WORD")
  IN  IF Bare(Toks(c.toks)) = Bare(SplitToken(tok, c.x)) THEN ""
      ELSE IF TextOf(Toks(c.toks)) # tok.t /\ c.toks # <<>> THEN "the pieces do not make up the word" ELSE "the word is split elsewhere"

RECURSIVE FilterAfter(_, _)
FilterAfter(hist, n) ==
  IF n = 0 THEN {}
  ELSE LET p == FilterAfter(hist, n - 1)
           h == hist[n]
       IN  CASE h.op = "set" -> ToSet(h.a) [] h.op = "add" -> p \cup ToSet(h.a) [] h.op = "rem" -> p \ ToSet(h.a) [] OTHER -> {}
CheckFilt(c) ==
  LET toks == Toks(c.toks)
      bad == {n \in 1..Len(c.hist) :
                LET f == FilterAfter(c.hist, n)
                IN  ToSet(c.hist[n].f) # f \/ Bare(Toks(c.hist[n].toks)) # Bare(Filtered(toks, f))}
  IN  IF bad = {} THEN "" ELSE "the filter in force does not decide which tokens are kept"

CheckStd(c) == IF c.s = StdText(c.t, c.c, c.x) THEN "" ELSE "other standard text"

CheckEnum(c) ==
  LET RECURSIVE C(_)
      C(p) == IF p > Len(c.p) THEN <<<<>>>>
              ELSE LET rest == C(p + 1)
                   IN  Flatten([j \in 1..Len(c.p[p]) |-> [m \in 1..Len(rest) |-> <<c.p[p][j]>> \o rest[m]]])
  IN  IF c.list = C(1) THEN "" ELSE IF SameBag(c.list, C(1)) THEN "the combinations are in another order" ELSE "not every class combination exactly once"

Why(c) == CASE c.k = "tok" -> CheckTok(c, c.t)
            [] c.k = "raw" -> CheckTok(c, Canon(c.t))
            [] c.k = "alts" -> CheckAlts(c)
            [] c.k = "class" -> CheckClass(c)
            [] c.k = "split" -> CheckSplit(c)
            [] c.k = "filt" -> CheckFilt(c)
            [] c.k = "std" -> CheckStd(c)
            [] c.k = "enum" -> CheckEnum(c)
Inv == Report(Why(Cases[i]))
=============================================================================
