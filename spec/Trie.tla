-------------------------------- MODULE Trie --------------------------------
(* The dictionary (a set of words) and the trie that stands for it: a node    *)
(* for every beginning of a word, with a mark where a word ends; and the      *)
(* expression made of the trie.                                               *)
EXTENDS Text

\* ---- what a dictionary answers ------------------------------------------------
IsWordIn(D, w) == w \in D
IsPrefixIn(D, p) == p = <<>> \/ \E w \in D : IsPrefixOf(p, w)
StartingWith(D, p) == {w \in D : IsPrefixOf(p, w)}
\* the longest word at the start of a text; <<"none">> if there is none
LongestAt(D, t) == IF D = {} THEN <<>>
                   ELSE LET S == {w \in D : IsPrefixOf(w, t)}
                        IN  IF S = {} THEN <<"none">> ELSE CHOOSE w \in S : \A v \in S : Len(v) <= Len(w)

\* ---- the trie ------------------------------------------------------------------
\* a function from node (beginning of a word) to its end mark; the root is <<>>
EmptyTrie == <<>> :> FALSE
AddWord(tr, w) ==
  IF w = <<>> THEN tr
  ELSE LET new == {SubSeq(w, 1, n) : n \in 1..Len(w)} \ DOMAIN tr
       IN  [p \in DOMAIN tr \cup new |-> IF p = w THEN TRUE ELSE IF p \in DOMAIN tr THEN tr[p] ELSE FALSE]
Children(tr, p) == {q \in DOMAIN tr : Len(q) = Len(p) + 1 /\ IsPrefixOf(p, q)}
WordsOf(tr) == {p \in DOMAIN tr : tr[p]}

\* ---- the expression -------------------------------------------------------------
\* of a node: what may follow it.  A list of alternatives in character order: first those
\* that go on (character, rest), then the class of those that end here; opt: it may be left out
RECURSIVE ExprOf(_, _)
IsLeaf(tr, p) == tr[p] /\ Children(tr, p) = {}
ExprOf(tr, p) ==
  [alts |-> {[c |-> Last(q), rest |-> ExprOf(tr, q)] : q \in {x \in Children(tr, p) : ~IsLeaf(tr, x)}},
   class |-> {Last(q) : q \in {x \in Children(tr, p) : IsLeaf(tr, x)}},
   opt |-> tr[p] /\ Children(tr, p) # {}]
\* the texts it stands for
RECURSIVE LangX(_)
LangX(e) == UNION {{<<a.c>> \o x : x \in LangX(a.rest)} : a \in e.alts} \cup {<<c>> : c \in e.class} \cup (IF e.opt THEN {<<>>} ELSE {})

\* what a greedy match takes from t: the first alternative that goes on, else the class, else nothing if opt
FAIL == <<"fail">>
RECURSIVE Greedy(_, _)
Greedy(e, t) ==
  LET A == {a \in e.alts : t # <<>> /\ a.c = t[1]}
      r == IF A = {} THEN FAIL ELSE LET a == CHOOSE x \in A : TRUE
                                        g == Greedy(a.rest, Tail(t))
                                    IN  IF g = FAIL THEN FAIL ELSE <<a.c>> \o g
  IN  IF r # FAIL THEN r
      ELSE IF t # <<>> /\ t[1] \in e.class THEN <<t[1]>>
      ELSE IF e.opt THEN <<>> ELSE FAIL
=============================================================================
