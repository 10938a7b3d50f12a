---------------------------- MODULE MCCacheSteps ----------------------------
(* The cache of std_pg_hash.c step by step: look up, create, replace, insert,*)
(* look up again; standardizers live in memory contexts that a global table  *)
(* maps back to them, and a context's address may be used again.  Several    *)
(* statements run interleaved, any call may fail while it loads.             *)
EXTENDS Cache, TLC
CONSTANTS Lexs, Gmrs,      \* text ids; the loadable ones are OkL, OkG
          OkL, OkG, Stmts, Ids, Places,
          AnyId      \* FALSE: the lowest free address is taken
NoId == 0
Slot == 0..(Places - 1)
VARIABLES slots,    \* statement -> slot -> id (the context's address) or NoId
          next, pc, arg, std,
          own,      \* id -> the pair it was made for, or NoEntry: not allocated
          table,    \* global: ids registered for release
          ret,      \* statement -> the standardizer handed out
          queue     \* ghost: what Cache says is resident
vars == <<slots, next, pc, arg, std, own, table, ret, queue>>
Free == {x \in Ids : own[x] = NoEntry}
Pair(l, g) == [l |-> l, g |-> g]

Init == /\ slots = [s \in Stmts |-> [k \in Slot |-> NoId]] /\ next = [s \in Stmts |-> 0]
        /\ pc = [s \in Stmts |-> "idle"] /\ arg = [s \in Stmts |-> NoEntry] /\ std = [s \in Stmts |-> NoId]
        /\ own = [x \in Ids |-> NoEntry] /\ table = {} /\ ret = [s \in Stmts |-> NoId] /\ queue = [s \in Stmts |-> <<>>]

Goto(s, p) == pc' = [pc EXCEPT ![s] = p]
Found(s) == {k \in Slot : slots[s][k] # NoId /\ own[slots[s][k]] = arg[s]}
Call(s, l, g) == pc[s] = "idle" /\ arg' = [arg EXCEPT ![s] = Pair(l, g)] /\ ret' = [ret EXCEPT ![s] = NoId] /\ Goto(s, "look")
                 /\ UNCHANGED <<slots, next, std, own, table, queue>>
Look(s) == pc[s] = "look" /\ Goto(s, IF Found(s) # {} THEN "get" ELSE "load") /\ UNCHANGED <<slots, next, arg, std, own, table, ret, queue>>
Fail(s) == pc[s] = "load" /\ (arg[s].l \notin OkL \/ arg[s].g \notin OkG) /\ Goto(s, "idle")
           /\ UNCHANGED <<slots, next, arg, std, own, table, ret, queue>>
Load(s) == /\ pc[s] = "load" /\ arg[s].l \in OkL /\ arg[s].g \in OkG
           /\ \E x \in Free : (AnyId \/ \A y \in Free : x <= y) /\ own' = [own EXCEPT ![x] = arg[s]] /\ std' = [std EXCEPT ![s] = x]
           /\ Goto(s, "evict") /\ UNCHANGED <<slots, next, arg, table, ret, queue>>
Evict(s) == /\ pc[s] = "evict"
            /\ LET x == slots[s][next[s]]
               IN  IF x = NoId THEN UNCHANGED <<own, table, slots>>
                   ELSE /\ own' = [own EXCEPT ![x] = NoEntry] /\ table' = table \ {x}
                        /\ slots' = [slots EXCEPT ![s][next[s]] = NoId]
            /\ Goto(s, "add") /\ UNCHANGED <<next, arg, std, ret, queue>>
Add(s) == /\ pc[s] = "add" /\ table' = table \cup {std[s]}
          /\ slots' = [slots EXCEPT ![s][next[s]] = std[s]] /\ next' = [next EXCEPT ![s] = (next[s] + 1) % Places]
          /\ std' = [std EXCEPT ![s] = NoId] /\ Goto(s, "get") /\ UNCHANGED <<arg, own, ret, queue>>
Get(s) == /\ pc[s] = "get" /\ \E k \in Found(s) : ret' = [ret EXCEPT ![s] = slots[s][k]]
          /\ queue' = [queue EXCEPT ![s] = IF Resident(@, arg[s].l, arg[s].g) THEN @
                                           ELSE IF Len(@) = Places THEN Append(Tail(@), arg[s]) ELSE Append(@, arg[s])]
          /\ Goto(s, "idle") /\ UNCHANGED <<slots, next, arg, std, own, table>>
End(s) == /\ pc[s] = "idle"
          /\ LET gone == {slots[s][k] : k \in Slot} \ {NoId}
             IN  own' = [x \in Ids |-> IF x \in gone THEN NoEntry ELSE own[x]] /\ table' = table \ gone
          /\ slots' = [slots EXCEPT ![s] = [k \in Slot |-> NoId]] /\ next' = [next EXCEPT ![s] = 0]
          /\ ret' = [ret EXCEPT ![s] = NoId] /\ queue' = [queue EXCEPT ![s] = <<>>] /\ UNCHANGED <<pc, arg, std>>
Next == \E s \in Stmts : \/ \E l \in Lexs, g \in Gmrs : Call(s, l, g)
                         \/ Look(s) \/ Fail(s) \/ Load(s) \/ Evict(s) \/ Add(s) \/ Get(s) \/ End(s)
Spec == Init /\ [][Next]_vars /\ \A s \in Stmts : WF_vars(Look(s) \/ Fail(s) \/ Load(s) \/ Evict(s) \/ Add(s) \/ Get(s))

Res(s) == {slots[s][k] : k \in Slot} \ {NoId}
InWork == {std[s] : s \in Stmts} \ {NoId}
\* everything held is allocated; everything allocated is held, once, and registered
Held == UNION {Res(s) : s \in Stmts} \cup InWork
Sound == /\ {x \in Ids : own[x] # NoEntry} = Held
         /\ \A s, t \in Stmts : s # t => Res(s) \cap Res(t) = {}
         /\ \A s \in Stmts : \A j, k \in Slot : j # k /\ slots[s][j] # NoId => slots[s][j] # slots[s][k]
         /\ table = UNION {Res(s) : s \in Stmts}
Bounded == \A s \in Stmts : Cardinality(Res(s)) <= Places
Distinct == \A s \in Stmts : \A x, y \in Res(s) : x # y => own[x] # own[y]
Right == \A s \in Stmts : pc[s] = "idle" /\ ret[s] # NoId => own[ret[s]] = arg[s]
\* between calls the slots hold what Cache says, and the next to go is the oldest
Order(s) == [n \in 1..Places |-> slots[s][(next[s] + n - 1) % Places]]
Contents(s) == LET f == SelectSeq(Order(s), LAMBDA x : x # NoId) IN [n \in 1..Len(f) |-> own[f[n]]]
Refines == \A s \in Stmts : pc[s] = "idle" => Contents(s) = queue[s]
Answered == \A s \in Stmts : pc[s] # "idle" ~> pc[s] = "idle"
=============================================================================
