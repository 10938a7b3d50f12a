---------------------------- MODULE MCTokenizer ----------------------------
(* Every text over a small alphabet up to MaxLen characters, cut with each   *)
(* of a few lexicons.                                                        *)
EXTENDS Tokenizer

CONSTANTS Alphabet, MaxLen, Lexicons, Filters, Emit

VARIABLES t, lex, st
vars == <<t, lex, st>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == t \in Texts /\ lex \in 1..Len(Lexicons) /\ st = TokStart
L == Lexicons[lex]
Step == More(st, t) /\ st' = Cut(st, t, L) /\ UNCHANGED <<t, lex>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Forward == [][st'.pos > st.pos]_vars                   \* so every scan ends
Done == ~More(st, t)
Terminates == <>Done

Body == SubSeq(t, SkipWhile(t, 1, IsLead), Len(t))

\* nothing is lost, nothing is invented, whatever the lexicon
Lossless == Done => Flatten(st.cuts) = Body
Prefixed == \E n \in 0..Len(t) : Flatten(st.cuts) = SubSeq(Body, 1, n)

\* no two separators in a row, no separator with a word character, a word cut ends at a boundary
Shape == \A n \in 1..Len(st.cuts) : st.cuts[n] # <<>>

\* the pieces of a split word are that word again, none empty
SplitLossless ==
  LET i == SkipWhile(t, 1, IsLead)
      w == SubSeq(t, i, TokenEnd(t, i, L) - 1)
  IN  w # <<>> => LET tok == Classified(w, L, "WORD")
                      ps == Pieces(tok, L)
                  IN  tok.l \/ ps = <<>> \/ (Flatten(ps) = tok.t /\ \A n \in 1..Len(ps) : ps[n] # <<>>)

\* maximal munch: a word cut is not the beginning of a longer key, and a word without key is the whole word
Greedy ==
  LET i == SkipWhile(t, 1, IsLead)
      e == TokenEnd(t, i, L)
  IN  /\ \A n \in 1..Len(L) : KeyAt(L[n].w, t, i) /\ Boundary(t, i + Len(L[n].w)) => i + Len(L[n].w) <= e
      /\ Boundary(t, e)

Classified2 == \A n \in 1..Len(st.toks) : st.toks[n].c # {} /\ st.toks[n].t # <<>>

AltsOk == Done =>
  LET toks == st.toks
      P == SplitPositions(toks)
      A == Alternatives(toks, L, {})
      TextOf(p) == Flatten([n \in 1..Len(p) |-> SelectSeq(p[n].t, LAMBDA c : c # " ")])
  IN  /\ Len(A) = 2^Cardinality(P) - 1
      /\ \A n \in 1..Len(A) : TextOf(A[n]) = TextOf(toks)
      /\ \A n, m \in 1..Len(A) : n # m => A[n] # A[m]
      /\ P # {} => \A n \in 1..Len(A[Len(A)]) : ~Splittable(A[Len(A)][n])

FilterOk == Done => \A f \in Filters :
  LET x == Filtered(st.toks, f)
  IN  /\ \A n \in 1..Len(x) : x[n].c \cap f = {}
      /\ Len(x) = Cardinality({n \in 1..Len(st.toks) : st.toks[n].c \cap f = {}})

\* a token that can be cut off is also what the text starts with after the cut: cutting is local
Local == st.pos > 1 /\ st.pos <= Len(t) =>
  RawTokens(t, L) = st.toks \o RawTokens(SubSeq(t, st.pos, Len(t)), L)

Case == Emit /\ st.pos = 1 /\ st.toks = <<>> => PrintT("CASE " \o ToJson([t |-> t, x |-> lex]))
=============================================================================
