------------------------------- MODULE Search -------------------------------
(* Matching a phrase of classified tokens against a grammar.                 *)
(*                                                                           *)
(* grammar : section name -> [m |-> sequence of alternatives (each a         *)
(*           sequence of section names)] for a meta section, or              *)
(*           [r |-> sequence of rules [in, out, s]] for a rule section; s is *)
(*           the score in 1/4096.                                             *)
(* phrase  : sequence of sequences of classes (the classes of each token, in *)
(*           class order).                                                   *)
EXTENDS Classes

Limit(phrase) == Len(phrase) + 2                      \* meta expansions allowed

IsMeta(g, n) == n \in DOMAIN g /\ "m" \in DOMAIN g[n]
IsRules(g, n) == n \in DOMAIN g /\ "r" \in DOMAIN g[n]

HasClass(phrase, p, c) == \E j \in 1..Len(phrase[p]) : phrase[p][j] = c

RuleFits(rule, phrase, pos) ==
  /\ pos + Len(rule.in) - 1 <= Len(phrase)
  /\ \A k \in 1..Len(rule.in) : HasClass(phrase, pos + k - 1, rule.in[k])

(* ---- the transition system ---------------------------------------------- *)
(* A search state is a leftmost partial derivation: the symbols still to be  *)
(* matched, the position reached, the rules used, the expansions done.       *)
Start(root) == [stack |-> <<root>>, pos |-> 1, used |-> <<>>, e |-> 0]

ExpandTo(st, g, phrase, k) ==
  [st EXCEPT !.stack = g[Head(st.stack)].m[k] \o Tail(st.stack), !.e = @ + 1]
CanExpand(st, g, phrase, k) ==
  /\ st.stack # <<>> /\ IsMeta(g, Head(st.stack)) /\ st.e <= Limit(phrase)
  /\ k \in 1..Len(g[Head(st.stack)].m)

ApplyTo(st, g, phrase, k) ==
  LET r == g[Head(st.stack)].r[k]
  IN  [st EXCEPT !.stack = Tail(st.stack), !.pos = @ + Len(r.in), !.used = Append(@, r)]
CanApply(st, g, phrase, k) ==
  /\ st.stack # <<>> /\ IsRules(g, Head(st.stack)) /\ st.e <= Limit(phrase)
  /\ k \in 1..Len(g[Head(st.stack)].r)
  /\ RuleFits(g[Head(st.stack)].r[k], phrase, st.pos)

Accepting(st, phrase) == st.stack = <<>> /\ st.pos = Len(phrase) + 1

(* ---- the same, as a function: all derivations, in grammar order ---------- *)
RECURSIVE FromL(_, _, _, _)
FromL(st, g, phrase, lim) ==
  IF st.stack = <<>> THEN (IF st.pos = Len(phrase) + 1 THEN <<st.used>> ELSE <<>>)
  ELSE IF st.e > lim THEN <<>>
  ELSE LET h == Head(st.stack)
           RECURSIVE Alts(_)
           Alts(k) == IF k > Len(g[h].m) THEN <<>>
                      ELSE FromL(ExpandTo(st, g, phrase, k), g, phrase, lim) \o Alts(k + 1)
           RECURSIVE Rules(_)
           Rules(k) == IF k > Len(g[h].r) THEN <<>>
                       ELSE IF RuleFits(g[h].r[k], phrase, st.pos)
                            THEN FromL(ApplyTo(st, g, phrase, k), g, phrase, lim) \o Rules(k + 1)
                            ELSE Rules(k + 1)
       IN  IF IsMeta(g, h) THEN Alts(1) ELSE IF IsRules(g, h) THEN Rules(1) ELSE <<>>
From(st, g, phrase) == FromL(st, g, phrase, Limit(phrase))
\* with x expansions more than allowed
Beyond(g, phrase, x) == FromL(Start("ADDRESS"), g, phrase, Limit(phrase) + x)

DerivationsFrom(g, root, phrase) == From(Start(root), g, phrase)
Derivations(g, phrase) == DerivationsFrom(g, "ADDRESS", phrase)

\* the classes a derivation assigns to the tokens, and the output classes
InOfDeriv(d)  == Flatten([i \in 1..Len(d) |-> d[i].in])
OutOfDeriv(d) == Flatten([i \in 1..Len(d) |-> d[i].out])

RECURSIVE SumScores(_, _)
SumScores(d, i) == IF i > Len(d) THEN 0 ELSE d[i].s + SumScores(d, i + 1)
Sum(d) == SumScores(d, 1)

\* mean(a) > mean(b), exactly
Better(a, b) == Sum(a) * Len(b) > Sum(b) * Len(a)
SameMean(a, b) == Sum(a) * Len(b) = Sum(b) * Len(a)

\* the order in which class combinations are tried: the first token is the most significant,
\* and each token's classes come in class order
ClassPos(phrase, p, c) == CHOOSE j \in 1..Len(phrase[p]) : phrase[p][j] = c
RECURSIVE LexLess(_, _, _, _)
LexLess(phrase, a, b, p) ==
  IF p > Len(phrase) THEN FALSE
  ELSE LET x == ClassPos(phrase, p, a[p])
           y == ClassPos(phrase, p, b[p])
       IN  x < y \/ (x = y /\ LexLess(phrase, a, b, p + 1))

\* index in ds of the derivation that has to be chosen: the best mean; among equals the first class
\* combination; among those the first in grammar order
Preferred(ds, phrase) ==
  LET Before(i, j) == LET a == InOfDeriv(ds[i])
                          b == InOfDeriv(ds[j])
                      IN  LexLess(phrase, a, b, 1) \/ (a = b /\ i <= j)
      RECURSIVE Scan(_, _)                             \* a total order: one pass finds its first element
      Scan(k, top) == IF k > Len(ds) THEN top
                      ELSE Scan(k + 1, IF Better(ds[k], ds[top]) \/ (SameMean(ds[k], ds[top]) /\ ~Before(top, k)) THEN k ELSE top)
  IN  Scan(2, 1)

\* over several phrases: the strictly best mean, the earliest phrase among equals; <<0, <<>>>> if none matches
RECURSIVE BestFrom(_, _, _, _)
BestFrom(g, phrases, k, best) ==
  IF k > Len(phrases) THEN best
  ELSE LET ds == Derivations(g, phrases[k])
           d == ds[Preferred(ds, phrases[k])]
       IN  IF ds = <<>> THEN BestFrom(g, phrases, k + 1, best)
           ELSE IF best.phrase = 0 \/ Better(d, best.d)
                THEN BestFrom(g, phrases, k + 1, [phrase |-> k, d |-> d])
                ELSE BestFrom(g, phrases, k + 1, best)
Best(g, phrases) == BestFrom(g, phrases, 1, [phrase |-> 0, d |-> <<>>])

\* the pattern text of a match
PatternText(d) == LET i == InOfDeriv(d)
                      o == OutOfDeriv(d)
                      RECURSIVE J(_, _)
                      J(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o " " \o J(s, k + 1)
                  IN  IF o = <<>> THEN "->" ELSE J(i, 1) \o "-> " \o JoinWith(o, " ")

\* all rows: every derivation of every phrase
AllRows(g, phrases) ==
  Flatten([k \in 1..Len(phrases) |->
    LET ds == Derivations(g, phrases[k])
    IN  [i \in 1..Len(ds) |-> [t |-> PatternText(ds[i]), s |-> Sum(ds[i]), n |-> Len(ds[i])]]])
NoMatchText == "Failed to match to grammar!"
=============================================================================
