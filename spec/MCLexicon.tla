------------------------------ MODULE MCLexicon ------------------------------
(* A lexicon under insertion, removal and queries.  What the tokenizer        *)
(* recognizes is computed from the keys when it is asked for, kept, and       *)
(* dropped by every change (memo).                                            *)
EXTENDS LexiconLoad
CONSTANTS Pool, Emit           \* Pool: sequence of entries

VARIABLES es, memo, hist
vars == <<es, memo, hist>>
Seen == <<es, memo>>
NONE == {<<"none">>}

Init == es = <<>> /\ memo = NONE /\ hist = <<>>
Ins(n) == es' = Insert(es, Pool[n]) /\ memo' = NONE /\ hist' = Append(hist, n)
Rem(n) == /\ es' = Remove(es, Pool[n])
          /\ memo' = IF Find(es, Pool[n].w) = <<>> THEN memo ELSE NONE     \* removing nothing may keep what is known
          /\ hist' = Append(hist, -n)
Ask == memo' = Keys(es) /\ es' = es /\ hist' = Append(hist, 0)
Next == \/ \E n \in 1..Len(Pool) : Ins(n) \/ Rem(n)
        \/ Ask
Spec == Init /\ [][Next]_vars

NoTwins == \A i, j \in 1..Len(es) : es[i] = es[j] => i = j
\* what is recognized is never out of date
InSync == memo = NONE \/ memo = Keys(es)
Findable == \A k \in {Pool[n].w : n \in 1..Len(Pool)} : Find(es, k) # <<>> <=> k \in Keys(es)
Idempotent == [][\A n \in 1..Len(Pool) : es' = Insert(es, Pool[n]) => Insert(es', Pool[n]) = es']_vars
Undo == [][\A n \in 1..Len(Pool) : (Pool[n] \notin ToSet(es) /\ es' = Insert(es, Pool[n]) /\ es' # es) => Remove(es', Pool[n]) = es]_vars
\* a change never reorders what stays
KeepsOrder == [][\A i, j \in 1..Len(es) : i < j /\ es[i] \in ToSet(es') /\ es[j] \in ToSet(es') =>
             \E k, l \in 1..Len(es') : k < l /\ es'[k] = es[i] /\ es'[l] = es[j]]_vars
Case == Emit => PrintT("CASE " \o ToJson(hist))
=============================================================================
