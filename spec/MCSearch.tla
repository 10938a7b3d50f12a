------------------------------ MODULE MCSearch ------------------------------
(* Exhaustive model of the search: every grammar of a small family and every *)
(* phrase up to MaxLen tokens.  States are partial derivations.              *)
EXTENDS Search

CONSTANTS MaxLen, Family, Emit

\* ---- a family of grammars over classes A=WORD, B=NUMBER ------------------
R(i, o, s) == [in |-> i, out |-> o, s |-> s]
RuleSets == <<
  << R(<<"WORD">>, <<"STREET">>, 2048) >>,
  << R(<<"WORD">>, <<"STREET">>, 2048), R(<<"NUMBER">>, <<"HOUSE">>, 3072) >>,
  << R(<<"WORD", "NUMBER">>, <<"STREET", "HOUSE">>, 4096), R(<<"WORD">>, <<"CITY">>, 1024) >>,
  << R(<<"NUMBER">>, <<"HOUSE">>, 1024), R(<<>>, <<>>, 512) >>,
  << R(<<"WORD", "WORD">>, <<"STREET", "STREET">>, 3840), R(<<"WORD">>, <<"CITY">>, 1280), R(<<"WORD">>, <<"PROV">>, 1280) >> >>
MetaSets == <<
  << <<"A">> >>,
  << <<"A", "B">>, <<"B">> >>,
  << <<"A", "X">>, <<"B">> >>,                 \* right recursion
  << <<"X", "A">>, <<"B">> >>,                 \* left recursion
  << <<"A", "B">>, <<"B", "A">>, <<"A">> >>,
  << <<"X", "X">>, <<"A">> >>,                 \* ambiguous recursion
  << <<"X">>, <<"A", "X", "B">>, <<"A">> >> >> \* unit recursion

Address == << << <<"X">> >>, << <<"X">>, <<"A", "X">> >>, << <<"X", "B">>, <<"A">> >> >>

Grammar(f) ==
  [n \in {"ADDRESS", "X", "A", "B"} |->
     CASE n = "ADDRESS" -> [m |-> Address[f[1]]]
       [] n = "X" -> [m |-> MetaSets[f[2]]]
       [] n = "A" -> [r |-> RuleSets[f[3]]]
       [] n = "B" -> [r |-> RuleSets[f[4]]]]

Toks == { <<"NUMBER">>, <<"WORD">>, <<"NUMBER", "WORD">> }
Phrases == UNION { [1..n -> Toks] : n \in 0..MaxLen }

VARIABLES g, phrase, st
vars == <<g, phrase, st>>

\* Family: the set of index tuples of this run
Init == /\ g \in {Grammar(f) : f \in Family}
        /\ phrase \in Phrases
        /\ st = Start("ADDRESS")

Expand == \E k \in 1..9 : CanExpand(st, g, phrase, k) /\ st' = ExpandTo(st, g, phrase, k) /\ UNCHANGED <<g, phrase>>
Apply  == \E k \in 1..9 : CanApply(st, g, phrase, k) /\ st' = ApplyTo(st, g, phrase, k) /\ UNCHANGED <<g, phrase>>
Next == Expand \/ Apply
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every step strictly grows this bounded measure, so every search ends
Measure(s) == s.e * (9 * (MaxLen + 3) + 9) + Len(s.used)
Progress == [][Measure(st') > Measure(st)]_vars
Bounded == st.e <= Limit(phrase) + 1 /\ Len(st.used) + Len(st.stack) <= 3 * (Limit(phrase) + 2)
Terminates == <>(~ENABLED Next)

\* an accepting state accounts for every token exactly once
Accounting == Accepting(st, phrase) =>
  /\ Len(InOfDeriv(st.used)) = Len(phrase)
  /\ Len(OutOfDeriv(st.used)) = Len(phrase)
  /\ \A i \in 1..Len(phrase) : HasClass(phrase, i, InOfDeriv(st.used)[i])

\* the function form lists exactly the accepting states below a state (soundness here; completeness and
\* multiplicity: Step below)
Listed == Accepting(st, phrase) => \E i \in 1..Len(Derivations(g, phrase)) : Derivations(g, phrase)[i] = st.used

\* the listing of a state is the concatenation of the listings of its successors, in order
Step == st.stack # <<>> =>
  LET succ == [k \in 1..9 |-> IF CanExpand(st, g, phrase, k) THEN From(ExpandTo(st, g, phrase, k), g, phrase)
                              ELSE IF CanApply(st, g, phrase, k) THEN From(ApplyTo(st, g, phrase, k), g, phrase)
                              ELSE <<>>]
  IN  From(st, g, phrase) = Flatten(succ)

\* matching class sets directly equals enumerating every class combination and matching each
Combos == LET RECURSIVE C(_)
              C(p) == IF p > Len(phrase) THEN <<<<>>>>
                      ELSE LET rest == C(p + 1)
                           IN  Flatten([j \in 1..Len(phrase[p]) |-> [i \in 1..Len(rest) |-> <<<<phrase[p][j]>>>> \o rest[i]]])
          IN  C(1)
ByCombos == Flatten([i \in 1..Len(Combos) |-> Derivations(g, Combos[i])])
Agree == st.used = <<>> /\ st.e = 0 => SameBag(ByCombos, Derivations(g, phrase))

\* the preferred derivation is the first of the best ones in combination order
PreferredOk == st.used = <<>> /\ st.e = 0 /\ Derivations(g, phrase) # <<>> =>
  LET ds == Derivations(g, phrase)
      bc == ByCombos
      best == {i \in 1..Len(bc) : \A j \in 1..Len(bc) : ~Better(bc[j], bc[i])}
  IN  ds[Preferred(ds, phrase)] = bc[Min(best)]

\* print each case once: the replay runs it through the implementation
Case == Emit /\ st.used = <<>> /\ st.e = 0 =>
  PrintT("CASE " \o ToJson([g |-> g, p |-> phrase, d |-> Derivations(g, phrase),
                            b |-> IF Derivations(g, phrase) = <<>> THEN 0 ELSE Preferred(Derivations(g, phrase), phrase)]))
=============================================================================
