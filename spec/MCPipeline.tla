----------------------------- MODULE MCPipeline -----------------------------
(* Every phrase of classified tokens up to MaxLen and every derivation of a  *)
(* few grammars: what the fields may and may not hold.                       *)
EXTENDS Pipeline

CONSTANTS MaxLen

R(i, o, s) == [in |-> i, out |-> o, s |-> s]
Outs == {"HOUSE", "STREET", "BOXH", "BOXT", "UNITH", "UNITT", "IGNORE", "STOP", "EXTRA", "CITY"}
WordSeq == << <<"A">>, <<"B">> >>
Lex == << [w |-> <<"A">>, s |-> "SA", t |-> <<"WORD">>, a |-> <<>>], [w |-> <<"A">>, s |-> "TA", t |-> <<"TYPE", "WORD">>, a |-> <<>>],
          [w |-> <<"B">>, s |-> "", t |-> <<"TYPE">>, a |-> <<>>] >>
Cls == {"WORD", "TYPE", "CITY"}

VARIABLES ts                                         \* tokens already assigned
Init == ts = <<>>
Next == /\ Len(ts) < MaxLen
        /\ \E w \in 1..2, c \in Cls, o \in Outs : ts' = Append(ts, [t |-> WordSeq[w], c |-> c, o |-> o])
Spec == Init /\ [][Next]_ts

F == FieldTexts(ts, Lex)
RECURSIVE NonIgnored(_)
NonIgnored(n) == IF n = 0 THEN 0 ELSE NonIgnored(n - 1) + (IF ts[n].o = "IGNORE" THEN 0 ELSE 1)
\* every token not ignored is in exactly one field, and in no field twice
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Len(FieldFrom(ts, f, Lex, 1)) + Total(S \ {f})
Once == Total(Fields) = NonIgnored(Len(ts))
NoEmpty == \A f \in DOMAIN F : F[f] # ""
OnlyKnown == DOMAIN F \subseteq Fields
\* a token moves only the field of its own output class
Frame == [][\A f \in Fields : f # FieldOf(Last(ts').o) => FieldFrom(ts', f, Lex, 1) = FieldFrom(ts, f, Lex, 1)]_ts
\* the standard text never invents: it is the word or the standard word of an entry of it in that class
StdOk == \A n \in 1..Len(ts) : LET s == StdText(ts[n].t, ts[n].c, Lex)
                               IN  s = Str(ts[n].t) \/ \E e \in 1..Len(Lex) : Lex[e].w = ts[n].t /\ Lex[e].s = s /\ ts[n].c \in ToSet(Lex[e].t)
=============================================================================
