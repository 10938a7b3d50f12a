------------------------------- MODULE MCTrie -------------------------------
(* Every dictionary over Universe, built by adding words in every order.      *)
EXTENDS Trie
CONSTANTS Alphabet, WordLen, MaxWords

Universe == UNION {[1..n -> Alphabet] : n \in 1..WordLen}
Texts == UNION {[1..n -> Alphabet] : n \in 0..(WordLen + 1)}
VARIABLES tr, added
vars == <<tr, added>>
Init == tr = EmptyTrie /\ added = {}
Next == Cardinality(added) < MaxWords /\ \E w \in Universe : tr' = AddWord(tr, w) /\ added' = added \cup {w}
Spec == Init /\ [][Next]_vars

SameWords == WordsOf(tr) = added
\* there are no nodes but the beginnings of words
Nodes == DOMAIN tr = {<<>>} \cup UNION {{SubSeq(w, 1, n) : n \in 0..Len(w)} : w \in added}
Prefixes == \A p \in Texts : (p \in DOMAIN tr) <=> IsPrefixIn(added, p)
Language == added # {} => LangX(ExprOf(tr, <<>>)) = added
Longest == added # {} => \A t \in Texts : Greedy(ExprOf(tr, <<>>), t) = (IF LongestAt(added, t) = <<"none">> THEN FAIL ELSE LongestAt(added, t))
=============================================================================
