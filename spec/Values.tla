------------------------------- MODULE Values -------------------------------
(* The values a grammar, a lexicon and a phrase are made of, as objects that *)
(* are changed by calls: tokens, rules, meta rules, sections, entries; and   *)
(* the named counters.  op: [f |-> what, s |-> text, c |-> names, n |-> int] *)
EXTENDS GrammarLoad
L == INSTANCE LexiconLoad

\* ---- tokens
NoToken == [text |-> <<>>, std |-> <<>>, cls |-> {}, out |-> BAD, att |-> {}, lex |-> FALSE]
TOKEN == Chars("TOKEN:")
IsTrimmed(c) == c \in {" ", "\f", "\n", "\r", "\t", Uni.vt}
TrimWhich(t, n) ==
  LET a == IF n = 2 THEN 1 ELSE SkipWhile(t, 1, IsTrimmed)
      b == IF n = 1 THEN Len(t) ELSE BackWhile(t, Len(t), IsTrimmed)
  IN  IF t = <<>> THEN t ELSE IF a > b THEN <<" ">> ELSE SubSeq(t, a, b)
TokenOf(l) == LET f == L!Tab(l)
                  g == IF Len(f) > 1 /\ f[1] = TOKEN THEN Tail(f) ELSE f
                  F(n) == L!FieldAt(g, n)
              IN  [text |-> F(1), std |-> F(2), cls |-> InSet(F(3)), out |-> OutOf(Str(F(4))), att |-> AttSet(F(5)), lex |-> FALSE]
TokenText(x) == "TOKEN:\t" \o Str(x.text) \o "\t" \o Str(x.std) \o "\t" \o L!TypeText(x.cls) \o "\t" \o x.out \o "\t" \o L!AttText(x.att) \o "\t" \o (IF x.lex THEN "1" ELSE "0")
DoToken(x, op) ==
  CASE op.f = "new" -> NoToken
    [] op.f = "text" -> [x EXCEPT !.text = op.s]
    [] op.f = "std" -> [x EXCEPT !.std = op.s]
    [] op.f = "cls+" -> [x EXCEPT !.cls = @ \cup ToSet(op.c)]
    [] op.f = "cls=" -> [x EXCEPT !.cls = ToSet(op.c)]
    [] op.f = "att+" -> [x EXCEPT !.att = @ \cup ToSet(op.c)]
    [] op.f = "att=" -> [x EXCEPT !.att = ToSet(op.c)]
    [] op.f = "out" -> [x EXCEPT !.out = op.c[1]]
    [] op.f = "lex" -> [x EXCEPT !.lex = (op.n = 1)]
    [] op.f = "trim" -> [x EXCEPT !.text = TrimWhich(@, op.n)]
    [] op.f = "read" -> TokenOf(op.s)

\* ---- rules; a sum has both patterns, one after the other, and the mean score
NoRule == [in |-> <<>>, out |-> <<>>, v |-> 0]
Sum(a, b) == [in |-> a.in \o b.in, out |-> a.out \o b.out, v |-> (a.v + b.v) \div 2]
Matches(r, pat) == IsPrefixOf(r.in, pat)
RuleError(l) == "Rule-Not-Valid(" \o Str(l) \o ")"

\* ---- meta rules: every @name of a line, wherever it stands
RECURSIVE AnyRefs(_, _)
AnyRefs(l, n) ==
  LET a == SkipWhile(l, n, LAMBDA c : c # "@")
      b == SkipWhile(l, a + 1, IsRxWord)
  IN  IF a >= Len(l) THEN <<>>
      ELSE IF b = a + 1 THEN AnyRefs(l, a + 1)
      ELSE << Str(SubSeq(l, a + 1, b - 1)) >> \o AnyRefs(l, b)

\* ---- entries
NoEntry == [w |-> <<>>, s |-> <<>>, t |-> {}, a |-> {}]
DoEntry(x, op) ==
  CASE op.f = "new" -> NoEntry
    [] op.f = "set" -> [x EXCEPT !.w = op.s, !.s = op.s, !.t = {op.c[1]}]
    [] op.f = "word" -> [x EXCEPT !.w = op.s]
    [] op.f = "std" -> [x EXCEPT !.s = op.s]
    [] op.f = "type+" -> [x EXCEPT !.t = @ \cup {op.c[1]}]
    [] op.f = "type=" -> [x EXCEPT !.t = ToSet(op.c)]
    [] op.f = "att=" -> [x EXCEPT !.a = ToSet(op.c)]
    [] op.f = "read" -> L!EntryOf(op.s)
Flags(x) ==
  LET Has(n) == n \in x.a
  IN  << Has("ATT_PRE") \/ Has("DET_PRE"), Has("ATT_SUF") \/ Has("DET_SUF"), Has("ATT_PRE") \/ Has("ATT_SUF"),
         x.a = {} \/ Has("DET_PRE") \/ Has("DET_SUF"), Has("ATT_PRE"), Has("ATT_SUF") >>

\* ---- sections: a name and a list
NoSection == [n |-> "", b |-> <<>>]

New(kind) == CASE kind = "token" -> NoToken [] kind = "rule" -> NoRule [] kind = "entry" -> NoEntry
               [] kind = "meta" -> <<>> [] kind \in {"rsec", "msec"} -> NoSection [] kind = "count" -> <<>>

\* ---- one call on two objects x, y of a kind: [x, y, exc]
Ret(x, y) == [x |-> x, y |-> y, exc |-> ""]
Call(kind, x, y, op) ==
  CASE op.f = "copy" -> Ret(x, x)
    [] op.f = "swap" -> Ret(y, x)
    [] op.f = "new" -> Ret(New(kind), y)
    [] kind = "token" -> Ret(DoToken(x, op), y)
    [] kind = "entry" -> Ret(DoEntry(x, op), y)
    [] kind = "rule" -> IF op.f = "read" THEN (IF ValidRule(RuleOf(op.s)) THEN Ret(RuleOf(op.s), y) ELSE [x |-> x, y |-> y, exc |-> RuleError(op.s)])
                        ELSE IF op.f = "plus" THEN Ret(Sum(x, y), y)
                        ELSE Ret(NoRule, y)                                              \* clear
    [] kind = "meta" -> IF op.f = "read" THEN Ret(AnyRefs(op.s, 1), y)
                        ELSE IF op.f = "push" THEN Ret(Append(x, Str(op.s)), y)
                        ELSE Ret(y, y)                                                   \* refs of the other
    [] kind = "rsec" -> IF op.f = "name" THEN Ret([x EXCEPT !.n = Str(op.s)], y)
                        ELSE IF op.f = "push" THEN (IF ValidRule(RuleOf(op.s)) THEN Ret([x EXCEPT !.b = Append(@, RuleOf(op.s))], y) ELSE [x |-> x, y |-> y, exc |-> RuleError(op.s)])
                        ELSE Ret([x EXCEPT !.b = y.b], y)                                \* rules of the other
    [] kind = "msec" -> IF op.f = "name" THEN Ret([x EXCEPT !.n = Str(op.s)], y)
                        ELSE IF op.f = "push" THEN Ret([x EXCEPT !.b = Append(@, AnyRefs(op.s, 1))], y)
                        ELSE Ret([x EXCEPT !.b = y.b], y)
    [] kind = "count" -> IF op.f = "count" THEN Ret(Append(x, Str(op.s)), y)             \* x: what was counted
                         ELSE Ret(SelectSeq(x, LAMBDA k : k # Str(op.s)), y)             \* cleared
=============================================================================
