------------------------------ MODULE MCTools ------------------------------
(* Every short history of writing, compiling and reading files: what each    *)
(* run reads is what was last put there, and a compiled lexicon stays that   *)
(* of the time it was compiled.                                              *)
EXTENDS Tools
CONSTANTS MaxLen, Emit

VARIABLES f, h, made
vars == <<f, h, made>>
Srcs == {"a", "c"}
Put1(n, k, i) == /\ f' = Put(f, n, [k |-> k, n |-> i])
                 /\ made' = [m \in DOMAIN made \cup {n} |-> IF m = n THEN 0 ELSE made[m]]
                 /\ h' = Append(h, [op |-> "put", f |-> n, k |-> k, n |-> i, a |-> "", b |-> ""])
Compile(a, b) == /\ f' = Compiled(f, a, b)
                 /\ made' = IF FileAt(f, a).k = "lex" THEN [m \in DOMAIN made \cup {b} |-> IF m = b THEN FileAt(f, a).n ELSE made[m]] ELSE made
                 /\ h' = Append(h, [op |-> "compile", f |-> "", k |-> "", n |-> 0, a |-> a, b |-> b])
Init == f = <<>> /\ h = <<>> /\ made = <<>>
Next == /\ Len(h) < MaxLen
        /\ \/ \E n \in Srcs, i \in 1..2 : Put1(n, "lex", i)
           \/ \E i \in 1..2 : Put1("g", "gmr", i)
           \/ Put1("a", "junk", 0)
           \/ \E a \in Srcs, b \in Srcs : Compile(a, b)
Spec == Init /\ [][Next]_vars
\* a compiled file is that of the lexicon it was made of, and only compiling makes one
OfItsTime == \A n \in DOMAIN f : f[n].k = "clex" <=> made[n] # 0 /\ f[n].n = made[n]
Stays == [][\A n \in DOMAIN f : f'[n] # f[n] => h'[Len(h')].f = n \/ h'[Len(h')].b = n]_vars
Report == ~Emit \/ Len(h) < MaxLen \/ PrintT("CASE " \o ToJson(h))
=============================================================================
