----------------------------- MODULE MCRecursion -----------------------------
(* The search on recursive grammars: direct, mutual, left, right, middle,    *)
(* unit and doubled recursion, with and without rules that consume nothing.  *)
(* Every behaviour ends (liveness), within the bound on expansions.          *)
EXTENDS Search
CONSTANTS MaxLen, Emit

R(i, o, s) == [in |-> i, out |-> o, s |-> s]
W == R(<<"WORD">>, <<"STREET">>, 2048)
N == R(<<"NUMBER">>, <<"HOUSE">>, 3072)
None == R(<<>>, <<>>, 512)
WN == R(<<"WORD", "NUMBER">>, <<"STREET", "HOUSE">>, 4096)

\* the alternatives of the sections ADDRESS, X and Y
Shapes == <<
  << << <<"ADDRESS">> >>, << <<"a">> >>, << <<"a">> >> >>,                                          \* nothing but itself
  << << <<"X">> >>, << <<"Y">> >>, << <<"X">> >> >>,                                                \* a cycle
  << << <<"X">>, <<"a">> >>, << <<"Y">>, <<"a">> >>, << <<"X">>, <<"ADDRESS">> >> >>,              \* cycles with ways out
  << << <<"a">>, <<"ADDRESS", "a">> >>, << <<"a">> >>, << <<"a">> >> >>,                            \* left
  << << <<"ADDRESS", "a">>, <<"a">> >>, << <<"a">> >>, << <<"a">> >> >>,                            \* left, the way out last
  << << <<"a", "ADDRESS">>, <<"a">> >>, << <<"a">> >>, << <<"a">> >> >>,                            \* right
  << << <<"a", "ADDRESS", "b">>, <<"a">>, <<"b">> >>, << <<"a">> >>, << <<"a">> >> >>,              \* middle
  << << <<"X", "a">>, <<"b">> >>, << <<"Y">> >>, << <<"ADDRESS">>, <<"b", "X">> >> >>,              \* mutual, left
  << << <<"a", "X">>, <<"a">> >>, << <<"b", "Y">>, <<"b">> >>, << <<"a", "ADDRESS">>, <<"b">> >> >>,\* mutual, right
  << << <<"ADDRESS", "ADDRESS">>, <<"a">> >>, << <<"a">> >>, << <<"a">> >> >>,                      \* doubled
  << << <<"X", "Y">> >>, << <<"a">>, <<"Y">> >>, << <<"b">>, <<"X">>, <<"ADDRESS">> >> >>,          \* doubled, mutual
  << << <<"X", "X">> >>, << <<"a">>, <<"b">>, <<"X">> >>, << <<"a">> >> >>,                         \* siblings of one section
  << << <<"X">>, <<"X">> >>, << <<"a", "X">>, <<"a">> >>, << <<"a">> >> >> >>                       \* a repeated alternative
RuleSets == << << <<W>>, <<N>> >>, << <<W, N>>, <<N>> >>, << <<W, None>>, <<N>> >>, << <<WN, W>>, <<N, None>> >> >>
Names == {"ADDRESS", "X", "Y", "a", "b"}
Grammar(s, r) == [n \in Names |-> CASE n = "ADDRESS" -> [m |-> Shapes[s][1]] [] n = "X" -> [m |-> Shapes[s][2]] [] n = "Y" -> [m |-> Shapes[s][3]]
                                    [] n = "a" -> [r |-> RuleSets[r][1]] [] OTHER -> [r |-> RuleSets[r][2]]]
Toks == { <<"NUMBER">>, <<"WORD">> }
Phrases == UNION { [1..n -> Toks] : n \in 0..MaxLen }

VARIABLES s, r, phrase, st
vars == <<s, r, phrase, st>>
g == Grammar(s, r)
Init == s \in 1..Len(Shapes) /\ r \in 1..Len(RuleSets) /\ phrase \in Phrases /\ st = Start("ADDRESS")
\* a search takes every way; a behaviour takes one of them to its end
Expand == \E k \in 1..3 : CanExpand(st, g, phrase, k) /\ st' = ExpandTo(st, g, phrase, k) /\ UNCHANGED <<s, r, phrase>>
Apply == \E k \in 1..2 : CanApply(st, g, phrase, k) /\ st' = ApplyTo(st, g, phrase, k) /\ UNCHANGED <<s, r, phrase>>
Next == Expand \/ Apply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the bound: every way is given up after n + 2 expansions, and its length is bounded by them
Bounded == st.e <= Limit(phrase) + 1
Finite == Len(st.used) + Len(st.stack) <= 1 + 2 * st.e
\* what is left to do decreases with every step
Left(x) == 3 * (Limit(phrase) + 1 - x.e) + Len(x.stack)
Variant == [][Left(st') < Left(st) /\ Left(st') >= 0]_vars
Stuck == ~(\E k \in 1..3 : CanExpand(st, g, phrase, k) \/ CanApply(st, g, phrase, k))
Terminates == <>[]Stuck
\* what is accepted has stayed within the bound
Within == Accepting(st, phrase) => st.e <= Limit(phrase)

Case == Emit /\ st = Start("ADDRESS") => PrintT("CASE " \o ToJson([g |-> g, p |-> phrase]))
=============================================================================
