----------------------------- MODULE GrammarLoad -----------------------------
(* Reading a grammar, line by line.  A line is a text without line end.      *)
EXTENDS Classes

IsCWs(c) == c \in {" ", "\t", "\n", "\r", "\f", Uni.vt}

\* ---- what a line is --------------------------------------------------------
FirstInk(l) == SkipWhile(l, 1, IsSpace)
LastInk(l) == BackWhile(l, Len(l), IsSpace)

IsCommentLine(l) == FirstInk(l) > Len(l) \/ l[FirstInk(l)] = "#"
IsHeader(l) == /\ ~IsCommentLine(l) /\ l[FirstInk(l)] = "[" /\ l[LastInk(l)] = "]" /\ LastInk(l) - FirstInk(l) >= 2
HeaderName(l) == Str(SubSeq(l, FirstInk(l) + 1, LastInk(l) - 1))
IsMetaLine(l) == \E i \in 1..Len(l) : l[i] = "@"

\* the references of a meta line; <<>> if it is not a list of @name and nothing else
RECURSIVE RefsAt(_, _)
RefsAt(l, i) ==
  LET a == SkipWhile(l, i, IsSpace)
      b == SkipWhile(l, a + 1, IsRxWord)
  IN  IF a > Len(l) THEN <<>>
      ELSE IF l[a] # "@" \/ b = a + 1 THEN <<"?">>
      ELSE << Str(SubSeq(l, a + 1, b - 1)) >> \o RefsAt(l, b)
MetaRefs(l) == LET r == RefsAt(l, 1) IN IF \E i \in 1..Len(r) : r[i] = "?" THEN <<>> ELSE r

\* ---- a rule line -----------------------------------------------------------
\* decimal number -> millionths (what follows the number is ignored; no number: 0)
DigitVal == [c \in DIGITS |-> CHOOSE n \in 0..9 : ToString(n) = c]
RECURSIVE Num(_, _, _)
Num(t, i, v) == IF i <= Len(t) /\ t[i] \in DIGITS THEN Num(t, i + 1, 10 * v + DigitVal[t[i]]) ELSE v
RECURSIVE Frac(_, _, _, _)
Frac(t, i, unit, v) == IF unit > 0 /\ i <= Len(t) /\ t[i] \in DIGITS THEN Frac(t, i + 1, unit \div 10, v + unit * DigitVal[t[i]]) ELSE v
Micro(t) ==
  LET neg == t # <<>> /\ t[1] = "-"
      s == IF t # <<>> /\ t[1] \in {"-", "+"} THEN 2 ELSE 1
      IsAD(c) == c \in DIGITS
      p == SkipWhile(t, s, IsAD)
      v == 1000000 * Num(SubSeq(t, s, p - 1), 1, 0) + (IF p <= Len(t) /\ t[p] = "." THEN Frac(t, p + 1, 100000, 0) ELSE 0)
  IN  IF neg THEN -v ELSE v

ARROW == <<"-", ">">>
\* tokens in three parts: before the first arrow, between the first two, the last one after the second
Part(ws, n) == LET ar == {i \in 1..Len(ws) : ws[i] = ARROW}
                   Before(i) == Cardinality({j \in ar : j < i})
                   RECURSIVE P(_)
                   P(i) == IF i > Len(ws) THEN <<>> ELSE (IF i \notin ar /\ Before(i) = n THEN <<ws[i]>> ELSE <<>>) \o P(i + 1)
               IN  P(1)
RuleOf(l) == LET ws == Words(l, IsCWs)
                 i == Part(ws, 0)
                 o == Part(ws, 1)
                 s == Part(ws, 2)
             IN  [in |-> [n \in 1..Len(i) |-> InOf(Str(i[n]))], out |-> [n \in 1..Len(o) |-> OutOf(Str(o[n]))],
                  v |-> IF s = <<>> THEN 0 ELSE Micro(s[Len(s)])]
ValidRule(r) == Len(r.in) = Len(r.out) /\ r.v > 0

\* ---- the transition system -------------------------------------------------
\* sec: open section ("": none yet); kind: "" (nothing in it yet), "m", "r"; buf: its rules so far
\* metas, rules: the closed sections in order, [n |-> name, b |-> content]; err: "" or why reading stopped
LoadStart == [sec |-> "", kind |-> "", buf |-> <<>>, metas |-> <<>>, rules |-> <<>>, err |-> ""]

NamesOf(secs) == {secs[i].n : i \in 1..Len(secs)}
Known(st) == NamesOf(st.metas) \cup NamesOf(st.rules)
Close(st) == CASE st.kind = "m" -> [st EXCEPT !.metas = Append(@, [n |-> st.sec, b |-> st.buf]), !.kind = "", !.buf = <<>>]
               [] st.kind = "r" -> [st EXCEPT !.rules = Append(@, [n |-> st.sec, b |-> st.buf]), !.kind = "", !.buf = <<>>]
               [] OTHER -> st

ReadLine(st, l) ==
  IF st.err # "" \/ IsCommentLine(l) THEN st
  ELSE IF IsHeader(l)
  THEN LET c == Close(st)
           n == HeaderName(l)
       IN  IF n \in Known(c) THEN [c EXCEPT !.sec = n, !.err = "Grammar-Duplicate-Section_Name"] ELSE [c EXCEPT !.sec = n]
  ELSE IF st.sec = "" THEN [st EXCEPT !.err = "Grammar-Syntax-Error"]
  ELSE IF IsMetaLine(l)
  THEN IF st.kind = "r" THEN [st EXCEPT !.err = "Grammar-Mixing-Rules-and-Metas"]
       ELSE [st EXCEPT !.kind = "m", !.buf = IF MetaRefs(l) = <<>> THEN @ ELSE Append(@, MetaRefs(l))]
  ELSE IF st.kind = "m" THEN [st EXCEPT !.err = "Grammar-Mixing-Rules-and-Metas"]
  ELSE IF ~ValidRule(RuleOf(l)) THEN [st EXCEPT !.err = "Rule-Not-Valid(" \o Str(l) \o ")"]
  ELSE [st EXCEPT !.kind = "r", !.buf = Append(@, RuleOf(l))]

\* ---- the verdict once everything is read -------------------------------------
Refs(secs) == {r \in UNION {UNION {ToSet(secs[i].b[j]) : j \in 1..Len(secs[i].b)} : i \in 1..Len(secs)} : TRUE}
MissingIssues(st) ==
  LET K == Known(st)
      OfRule(m, r) == Flatten([i \in 1..Len(r) |-> IF r[i] \in K THEN <<>> ELSE << "Missing rule: " \o r[i] \o " : referenced at [" \o m \o "]\n" >>])
      OfSec(s) == Flatten([j \in 1..Len(s.b) |-> OfRule(s.n, s.b[j])])
  IN  Flatten([i \in 1..Len(st.metas) |-> OfSec(st.metas[i])])
AddressIssue(st) == IF "ADDRESS" \in Known(st) THEN <<>> ELSE << "Rule 'ADDRESS' is not defined!\n" >>
UnusedIssues(st) ==
  LET R == Refs(st.metas)
      Of(secs) == Flatten([i \in 1..Len(secs) |-> IF secs[i].n \in R \cup {"ADDRESS"} THEN <<>> ELSE << "Rule '" \o secs[i].n \o "' defined by not referenced!\n" >>])
  IN  Of(st.metas) \o Of(st.rules)

Verdict(st0) ==
  LET st == Close(st0)
      fatal == MissingIssues(st) \o AddressIssue(st)
      all == fatal \o UnusedIssues(st)
  IN  IF st0.err # "" THEN [err |-> st0.err, status |-> -1, issues |-> ""]
      ELSE IF fatal # <<>> THEN [err |-> JoinWith(all, ""), status |-> -1, issues |-> ""]
      ELSE [err |-> "", status |-> IF all = <<>> THEN 0 ELSE 1, issues |-> JoinWith(all, "")]

\* ---- its text ----------------------------------------------------------------
\* millionths -> shortest decimal
RECURSIVE Trailing(_, _)
Trailing(v, w) == IF w = 0 THEN "" ELSE IF v % 10 = 0 THEN Trailing(v \div 10, w - 1)
                  ELSE LET RECURSIVE Pad(_)
                           Pad(n) == IF n = 0 THEN "" ELSE "0" \o Pad(n - 1)
                       IN  Pad(w - Len(ToString(v))) \o ToString(v)
Dec(v) == LET f == Trailing(v % 1000000, 6) IN ToString(v \div 1000000) \o (IF f = "" THEN "" ELSE "." \o f)
RuleText(r) == JoinWith([i \in 1..Len(r.in) |-> r.in[i] \o " "], "") \o "-> " \o JoinWith([i \in 1..Len(r.out) |-> r.out[i] \o " "], "") \o "-> " \o Dec(r.v)
MetaText(m) == JoinWith([i \in 1..Len(m) |-> "@" \o m[i]], " ")
GrammarText(st0) ==
  LET st == Close(st0)
      M(s) == "[" \o s.n \o "]\n" \o JoinWith([i \in 1..Len(s.b) |-> MetaText(s.b[i]) \o "\n"], "") \o "\n"
      R(s) == "[" \o s.n \o "]\n" \o JoinWith([i \in 1..Len(s.b) |-> RuleText(s.b[i]) \o "\n"], "") \o "\n"
  IN  JoinWith([i \in 1..Len(st.metas) |-> M(st.metas[i])], "") \o JoinWith([i \in 1..Len(st.rules) |-> R(st.rules[i])], "")

RECURSIVE ReadAll(_, _, _)
ReadAll(st, ls, i) == IF i > Len(ls) THEN st ELSE ReadAll(ReadLine(st, ls[i]), ls, i + 1)
NoBom(ls) == IF ls # <<>> /\ ls[1] # <<>> /\ ls[1][1] = Uni.bom THEN [ls EXCEPT ![1] = Tail(@)] ELSE ls
Loaded(ls) == ReadAll(LoadStart, NoBom(ls), 1)
=============================================================================
