------------------------------ MODULE MCLedger ------------------------------
(* The functions of the API step by step: what each of them acquires, where  *)
(* it can fail and what it gives back then.  Contents "A", "P" are sound,    *)
(* "x" is refused.  A question may find nothing ("no match").                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Emit
LH == {"L", "M"}
LexC == {"A", "B", "x"}
GmrC == {"P", "x"}
NONE == "-"
OneShot == {"std", "parse", "match"}

VARIABLES lh, gh,      \* handles -> content or NONE
          mem,         \* live blocks, named
          call,        \* the running call, or <<>>
          at,          \* how far it is
          caller,      \* what the caller was given and has not released
          hist
vars == <<lh, gh, mem, call, at, caller, hist>>
Seen == <<lh, gh, mem, call, at, caller>>

Owned == {<<"lexicon", h>> : h \in {k \in LH : lh[k] # NONE}} \cup (IF gh # NONE THEN {<<"grammar", "G">>} ELSE {})
Init == lh = [h \in LH |-> NONE] /\ gh = NONE /\ mem = {} /\ call = <<>> /\ at = 0 /\ caller = {} /\ hist = <<>>

\* what a function acquires, in order; the last is what it hands over
Plan(c) == CASE c.fn = "std" -> <<"lexicon", "grammar", "tokens", "matches", "record">>
             [] c.fn = "match" -> <<"lexicon", "grammar", "tokens", "matches", "rows">>
             [] c.fn = "parse" -> <<"lexicon", "tokens", "rows">>
             [] c.fn = "stdp" -> <<"tokens", "matches", "record">>
             [] c.fn = "parsep" -> <<"tokens", "rows">>
             [] c.fn = "getl" -> <<"lexicon">>
             [] c.fn = "getg" -> <<"grammar">>
             [] c.fn = "compile" -> <<"lexicon", "archive">>
Temp(c, n) == <<"temp", Plan(c)[n]>>
Temps == {b \in mem : b[1] = "temp"}
Idle == call = <<>> /\ caller = {}

Begin(c) == /\ Idle /\ call' = c /\ at' = 0 /\ UNCHANGED <<lh, gh, mem, caller, hist>>
Calls == [fn : {"std", "match"}, l : LexC, g : GmrC, h : {NONE}] \cup [fn : {"parse", "compile"}, l : LexC, g : {NONE}, h : {NONE}]
         \cup [fn : {"stdp", "parsep"}, l : {NONE}, g : {NONE}, h : LH] \cup [fn : {"getl"}, l : LexC, g : {NONE}, h : LH] \cup [fn : {"getg"}, l : {NONE}, g : GmrC, h : {"G"}]
Allowed(c) == /\ c.fn \in {"stdp", "parsep"} => lh[c.h] # NONE
              /\ c.fn = "stdp" => gh # NONE
              /\ c.fn = "getl" => lh[c.h] = NONE
              /\ c.fn = "getg" => gh = NONE
Acquire == /\ call # <<>> /\ at < Len(Plan(call))
           /\ ~(Plan(call)[at + 1] = "lexicon" /\ call.l = "x") /\ ~(Plan(call)[at + 1] = "grammar" /\ call.g = "x")
           /\ mem' = mem \cup {Temp(call, at + 1)} /\ at' = at + 1 /\ UNCHANGED <<lh, gh, call, caller, hist>>
Done(k) == hist' = Append(hist, [fn |-> call.fn, l |-> call.l, g |-> call.g, h |-> call.h, k |-> k])
\* anything can fail, a refused text does: what was acquired is given back, the caller gets an error text
Fail == /\ call # <<>> /\ at < Len(Plan(call))
        /\ mem' = (mem \ Temps) \cup {<<"result", "error">>} /\ caller' = {<<"result", "error">>}
        /\ call' = <<>> /\ at' = 0 /\ UNCHANGED <<lh, gh>> /\ Done("err")
\* nothing matched: neither a result nor an error
Nothing == /\ call # <<>> /\ call.fn \in {"std", "stdp"} /\ at = Len(Plan(call)) - 1
           /\ mem' = mem \ Temps /\ call' = <<>> /\ at' = 0 /\ UNCHANGED <<lh, gh, caller>> /\ Done("none")
Return == /\ call # <<>> /\ at = Len(Plan(call))
          /\ IF call.fn = "getl" THEN lh' = [lh EXCEPT ![call.h] = call.l] /\ mem' = (mem \ Temps) \cup {<<"lexicon", call.h>>} /\ UNCHANGED <<gh, caller>>
             ELSE IF call.fn = "getg" THEN gh' = call.g /\ mem' = (mem \ Temps) \cup {<<"grammar", "G">>} /\ UNCHANGED <<lh, caller>>
             ELSE mem' = (mem \ Temps) \cup {<<"result", Plan(call)[at]>>} /\ caller' = {<<"result", Plan(call)[at]>>} /\ UNCHANGED <<lh, gh>>
          /\ call' = <<>> /\ at' = 0 /\ Done("ok")
Release == /\ caller # {} /\ mem' = mem \ caller /\ caller' = {} /\ UNCHANGED <<lh, gh, call, at, hist>>
FreeL(h) == /\ Idle /\ lh[h] # NONE /\ lh' = [lh EXCEPT ![h] = NONE] /\ mem' = mem \ {<<"lexicon", h>>} /\ UNCHANGED <<gh, call, at, caller>>
            /\ hist' = Append(hist, [fn |-> "freel", l |-> NONE, g |-> NONE, h |-> h, k |-> "ok"])
FreeG == /\ Idle /\ gh # NONE /\ gh' = NONE /\ mem' = mem \ {<<"grammar", "G">>} /\ UNCHANGED <<lh, call, at, caller>>
         /\ hist' = Append(hist, [fn |-> "freeg", l |-> NONE, g |-> NONE, h |-> "G", k |-> "ok"])
Next == \/ \E c \in Calls : Allowed(c) /\ Begin(c)
        \/ Acquire \/ Fail \/ Nothing \/ Return \/ Release \/ FreeG
        \/ \E h \in LH : FreeL(h)
Spec == Init /\ [][Next]_vars

\* between calls, with nothing left to release, only the handles hold memory
Balanced == Idle => mem = Owned
\* a call in progress never touches what the handles hold
Kept == Owned \subseteq mem
\* a failed call changes no handle
FailKeeps == [][hist' # hist /\ hist'[Len(hist')].k = "err" => lh' = lh /\ gh' = gh]_vars
\* every transition that ends a call, as the history that ends with it
Edge == [][Emit /\ hist' # hist => PrintT("CASE " \o ToJson(hist'))]_vars
=============================================================================
