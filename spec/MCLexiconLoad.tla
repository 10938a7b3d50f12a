---------------------------- MODULE MCLexiconLoad ----------------------------
(* Every sequence of up to MaxLines lines out of Lines, read by the reader.  *)
EXTENDS LexiconLoad
CONSTANTS Lines, MaxLines, Emit

VARIABLES ls, st
vars == <<ls, st>>
Init == ls = <<>> /\ st = LoadStart
Next == /\ Len(ls) < MaxLines
        /\ \E n \in 1..Len(Lines) : ls' = Append(ls, n) /\ st' = ReadLine(st, Chars(Lines[n]))
Spec == Init /\ [][Next]_vars

Function == st = ReadAll(LoadStart, [i \in 1..Len(ls) |-> Chars(Lines[ls[i]])], 1)
Absorbing == [][st.err # "" => st'.err = st.err]_vars
Growing == [][IsPrefixOf(st.es, st'.es) /\ (st.ph = "body" => st'.ph = "body" /\ st'.lang = st.lang /\ st'.loc = st.loc)]_vars
\* nothing is entered before the header
Headed == st.ph = "head" => st.es = <<>>
\* inserting is idempotent: an entry is there once
NoTwins == \A i, j \in 1..Len(st.es) : st.es[i] = st.es[j] => i = j
\* every entry is found under its key, and only there
Grouped == /\ \A i \in 1..Len(st.es) : \E j \in 1..Len(Find(st.es, st.es[i].w)) : Find(st.es, st.es[i].w)[j] = st.es[i]
           /\ Len(InKeyOrder(st.es)) = Len(st.es)
\* no class outside the known ones gets in
Known == \A i \in 1..Len(st.es) : BAD \notin st.es[i].t
\* the text reads back as the same lexicon: same entries under each key, in the same order
RoundTrip == Finish(st).err = "" =>
  LET b == Finish(ReadAll(LoadStart, Split(Chars(LexiconText("x", st.lang, st.loc, st.es)), "\n"), 1))
  IN  b.err = "" /\ b.lang = st.lang /\ b.loc = st.loc /\ Keys(b.es) = Keys(st.es) /\ \A k \in Keys(st.es) : Find(b.es, k) = Find(st.es, k)
Case == Emit /\ Len(ls) = MaxLines => PrintT("CASE " \o ToJson(ls))
=============================================================================
