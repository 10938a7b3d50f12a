--------------------------- MODULE MCGrammarLoad ---------------------------
(* Every sequence of up to MaxLines lines out of Lines.                      *)
EXTENDS GrammarLoad
CONSTANTS Lines, MaxLines, Emit       \* Lines: sequence of strings

VARIABLES ls, st
vars == <<ls, st>>
Init == ls = <<>> /\ st = LoadStart
Next == /\ Len(ls) < MaxLines
        /\ \E n \in 1..Len(Lines) : ls' = Append(ls, n) /\ st' = ReadLine(st, Chars(Lines[n]))
Spec == Init /\ [][Next]_vars

V == Verdict(st)
C == Close(st)
\* the states and the function agree
Function == st = ReadAll(LoadStart, [i \in 1..Len(ls) |-> Chars(Lines[ls[i]])], 1)
\* an error stays
Absorbing == [][st.err # "" => st'.err = st.err]_vars
\* nothing already read is changed by a later line
Growing == [][IsPrefixOf(st.metas, st'.metas) /\ IsPrefixOf(st.rules, st'.rules)]_vars
\* no two sections of one name
Unique == st.err = "" => Cardinality(Known(st)) = Len(st.metas) + Len(st.rules)
\* a section holds rules or references, not both
Pure == /\ \A i \in 1..Len(C.metas) : \A j \in 1..Len(C.metas[i].b) : C.metas[i].b[j] # <<>>
        /\ \A i \in 1..Len(C.rules) : C.rules[i].b # <<>> /\ \A j \in 1..Len(C.rules[i].b) : ValidRule(C.rules[i].b[j])
\* an accepted grammar is closed and has its start
Sound == V.err = "" => "ADDRESS" \in Known(C) /\ Refs(C.metas) \subseteq Known(C)
Complete == st.err = "" /\ "ADDRESS" \in Known(C) /\ Refs(C.metas) \subseteq Known(C) => V.err = ""
WarnOk == V.err = "" => (V.status = 1 <=> (Known(C) \ (Refs(C.metas) \cup {"ADDRESS"})) # {})
\* the text of an accepted grammar reads back as the same grammar (metas without any well-formed line aside)
RoundTrip == V.err = "" /\ (\A i \in 1..Len(C.metas) : C.metas[i].b # <<>>) =>
  LET t == Split(Chars(GrammarText(st)), "\n")
      b == Close(ReadAll(LoadStart, t, 1))
  IN  b.err = "" /\ b.metas = C.metas /\ b.rules = C.rules
Case == Emit /\ Len(ls) = MaxLines => PrintT("CASE " \o ToJson(ls))
=============================================================================
