-------------------------------- MODULE MCApi --------------------------------
(* Handles of the C API: which are open, on what, and what each lexicon has  *)
(* computed for itself (its recognizers, made when it is first used).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Emit
LH == {"L", "M"}                   \* lexicon handles
Contents == {"A", "B"}
Gmrs == {"P", "Q"}
NONE == "-"

VARIABLES open,        \* lexicon handle -> content or NONE
          warm,        \* lexicon handle -> recognizers made
          gmr,         \* content of the grammar handle G, or NONE
          last,        \* the question and answer of the last step
          hist
vars == <<open, warm, gmr, last, hist>>
Seen == <<open, warm, gmr>>

Init == open = [h \in LH |-> NONE] /\ warm = [h \in LH |-> FALSE] /\ gmr = NONE /\ last = <<>> /\ hist = <<>>
Do(x) == hist' = Append(hist, x)

GetL(h, c) == /\ open' = [open EXCEPT ![h] = c] /\ warm' = [warm EXCEPT ![h] = FALSE] /\ UNCHANGED gmr /\ last' = <<>>
              /\ Do([fn |-> "getl", h |-> h, c |-> c])
FreeL(h) == /\ open[h] # NONE /\ open' = [open EXCEPT ![h] = NONE] /\ warm' = [warm EXCEPT ![h] = FALSE] /\ UNCHANGED gmr /\ last' = <<>>
            /\ Do([fn |-> "freel", h |-> h])
GetG(c) == gmr' = c /\ UNCHANGED <<open, warm>> /\ last' = <<>> /\ Do([fn |-> "getg", h |-> "G", c |-> c])
FreeG == gmr # NONE /\ gmr' = NONE /\ UNCHANGED <<open, warm>> /\ last' = <<>> /\ Do([fn |-> "freeg", h |-> "G"])
StdP(h, t, f) == /\ open[h] # NONE /\ gmr # NONE /\ warm' = [warm EXCEPT ![h] = TRUE] /\ UNCHANGED <<open, gmr>>
                 /\ last' = <<"std", open[h], gmr, t, f>> /\ Do([fn |-> "stdp", h |-> h, t |-> t, f |-> f])
ParseP(h, t, f) == /\ open[h] # NONE /\ warm' = [warm EXCEPT ![h] = TRUE] /\ UNCHANGED <<open, gmr>>
                   /\ last' = <<"parse", open[h], NONE, t, f>> /\ Do([fn |-> "parsep", h |-> h, t |-> t, f |-> f])
One(fn, c, t, f) == /\ UNCHANGED <<open, warm, gmr>> /\ last' = <<fn, c, IF fn = "parse" THEN NONE ELSE "P", t, f>>
                    /\ Do([fn |-> fn, c |-> c, t |-> t, f |-> f])
Next == \/ \E h \in LH : \/ \E c \in Contents : GetL(h, c)
                         \/ FreeL(h)
                         \/ \E t, f \in {1, 2} : StdP(h, t, f) \/ ParseP(h, t, f)
        \/ \E c \in Gmrs : GetG(c)
        \/ FreeG
        \/ \E fn \in {"std", "parse", "match"}, c \in Contents : One(fn, c, 1, 1)
Spec == Init /\ [][Next]_vars

\* only open handles hold anything
Closed == \A h \in LH : open[h] = NONE => ~warm[h]
\* a question on one handle leaves the others alone; a one-shot question leaves all alone
Apart == [][\A h \in LH : open'[h] # open[h] => last' = <<>>]_vars
Asked == last # <<>> => last[2] \in Contents
\* every transition, as the history that ends with it
Edge == [][Emit => PrintT("CASE " \o ToJson(hist'))]_vars
=============================================================================
