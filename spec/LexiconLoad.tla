----------------------------- MODULE LexiconLoad -----------------------------
(* Lexicons: entries, insertion and removal, reading, writing.               *)
(* entry   : [w |-> text, s |-> text, t |-> set of classes, a |-> set of     *)
(*           attachments]; lexicon : sequence of entries without duplicates, *)
(* in insertion order                                                        *)
EXTENDS Classes

\* ---- insertion, removal ------------------------------------------------------
Insert(es, e) == IF \E i \in 1..Len(es) : es[i] = e THEN es ELSE Append(es, e)
Remove(es, e) == SelectSeq(es, LAMBDA x : x # e)
Find(es, w) == SelectSeq(es, LAMBDA x : x.w = w)
Keys(es) == {es[i].w : i \in 1..Len(es)}
AttachedKeys(es, a) == {es[i].w : i \in {j \in 1..Len(es) : a \in es[j].a}}

\* ---- reading -------------------------------------------------------------------
Tab(t) == Split(t, "\t")
FieldAt(fs, n) == IF n <= Len(fs) THEN fs[n] ELSE <<>>
StripCR(l) == IF l # <<>> /\ Last(l) = "\r" THEN SubSeq(l, 1, Len(l) - 1) ELSE l
RECURSIVE Collapse(_, _)
Collapse(l, i) == IF i > Len(l) THEN <<>>
                  ELSE IF l[i] = " " THEN <<" ">> \o Collapse(l, SkipWhile(l, i, LAMBDA c : c = " "))
                  ELSE LET j == SkipWhile(l, i, LAMBDA c : c # " ") IN SubSeq(l, i, j - 1) \o Collapse(l, j)

LEXICON == Chars("LEXICON:")
LEXENTRY == Chars("LEXENTRY:")
LexEntry2 == Chars("LexEntry:")

EntryOf(l) == LET f == Tab(l)
                  g == IF Len(f) > 1 /\ f[1] = LEXENTRY THEN Tail(f) ELSE f
              IN  [w |-> FieldAt(g, 1), s |-> FieldAt(g, 2), t |-> InSet(FieldAt(g, 3)), a |-> AttSet(FieldAt(g, 4))]

\* ph: "head" (no header line yet), "body"; n: lines read
LoadStart == [ph |-> "head", n |-> 0, lang |-> "UNKNOWN", loc |-> "", es |-> <<>>, err |-> ""]
Canonical(l, loc) == IF loc = "" THEN Nfc(l) ELSE Upper(Nfc(l))

ReadHead(st, l) ==
  IF IsPrefixOf(LEXENTRY, l) THEN [st EXCEPT !.n = @ + 1, !.err = "Lexicon-LexEntry-Before-Lexicon"]
  ELSE IF ~IsPrefixOf(LEXICON, l) THEN [st EXCEPT !.n = @ + 1]
  ELSE LET f == Tab(l)
       IN  IF f[1] # LEXICON THEN [st EXCEPT !.n = @ + 1, !.err = "Lexicon-Invalid-Data-Format: " \o ToString(st.n + 2) \o ": " \o Str(l)]
           ELSE LET c == Str(FieldAt(f, 3))
                IN  [st EXCEPT !.n = @ + 1, !.ph = "body", !.lang = LangOf(c), !.loc = Str(FieldAt(f, 4))]

InvalidEntry(n, l) == "Lexicon-Invalid-LexEntry: " \o ToString(n + 2) \o ": " \o Str(l)
ReadBody(st, raw) ==
  LET l == Collapse(raw, 1)
      c == Canonical(l, st.loc)
      e == EntryOf(c)
      nx == [st EXCEPT !.n = @ + 1]
  IN  IF l = <<>> THEN nx
      ELSE IF ~(IsPrefixOf(LEXENTRY, l) \/ IsPrefixOf(LexEntry2, l)) THEN [nx EXCEPT !.err = InvalidEntry(st.n, l)]
      ELSE IF BAD \in e.t THEN [nx EXCEPT !.err = InvalidEntry(st.n, c)]
      ELSE [nx EXCEPT !.es = Insert(@, e)]

ReadLine(st, l0) ==
  LET l == StripCR(l0)
  IN  IF st.err # "" THEN st ELSE IF st.ph = "head" THEN ReadHead(st, l) ELSE ReadBody(st, l)

\* the last, unended line of a text is a line unless it is empty
Finish(st) == IF st.err = "" /\ st.ph = "head" THEN [st EXCEPT !.err = "Lexicon-Invalid-File-Format"] ELSE st

RECURSIVE ReadAll(_, _, _)
ReadAll(st, ls, i) == IF i > Len(ls) THEN st ELSE ReadAll(ReadLine(st, ls[i]), ls, i + 1)
NoBom(ls) == IF ls # <<>> /\ ls[1] # <<>> /\ ls[1][1] = Uni.bom THEN [ls EXCEPT ![1] = Tail(@)] ELSE ls
Loaded(ls) == Finish(ReadAll(LoadStart, NoBom(ls), 1))

\* ---- writing -------------------------------------------------------------------
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF a[1] = b[1] THEN Before(Tail(a), Tail(b)) ELSE Uni.ord[a[1]] < Uni.ord[b[1]]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y) IN <<m>> \o Sorted(S \ {m})

AttOrder == << "DET_PRE", "DET_SUF", "ATT_PRE", "ATT_SUF" >>
TypeText(t) == JoinWith(SelectSeq(Append(InNames, BAD), LAMBDA c : c \in t), ",")
AttText(a) == JoinWith(SelectSeq(AttOrder, LAMBDA c : c \in a), ",")
EntryText(e) == "LEXENTRY:\t" \o Str(e.w) \o "\t" \o Str(e.s) \o "\t" \o TypeText(e.t) \o "\t" \o AttText(e.a)
InKeyOrder(es) == LET ks == Sorted(Keys(es)) IN Flatten([i \in 1..Len(ks) |-> Find(es, ks[i])])
LexiconText(name, lang, loc, es) ==
  LET o == InKeyOrder(es)
  IN  "LEXICON:\t" \o name \o "\t" \o lang \o "\t" \o loc \o "\t" \o ToString(Cardinality(Keys(es))) \o "\n"
      \o Str([i \in 1..Len(o) |-> EntryText(o[i]) \o "\n"])
=============================================================================
