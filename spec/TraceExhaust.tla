---------------------------- MODULE TraceExhaust ----------------------------
(* Recorded histories in which memory runs out during some calls.  Such a    *)
(* call gives an error or its ordinary answer (Api: oom), changes no handle, *)
(* and gives back what it took (Ledger): every call carries what it did to   *)
(* the handles and the bytes held after it.                                  *)
EXTENDS Api, Judging
M == INSTANCE Ledger
RECURSIVE LearnAll(_, _, _)
LearnAll(st, cs, n) == IF n > Len(cs) THEN st ELSE LearnAll(Learn(st, cs[n]), cs, n + 1)
RECURSIVE Walk(_, _, _, _)
Walk(c, st, m, n) ==
  IF n > Len(c.calls) THEN ""
  ELSE LET x == c.calls[n]
           w == IF ~Enabled(st, x) THEN "" ELSE Judge(st, x)
           d == M!Off(m, x.led)
           v == IF w # "" THEN w ELSE IF d > 0 THEN x.fn \o ": " \o ToString(d) \o " bytes are not given back" ELSE IF d < 0 THEN x.fn \o ": too much was given back" ELSE ""
       IN  IF v # "" THEN v \o " (call " \o ToString(n) \o (IF Oom(x) THEN ", memory ran out)" ELSE ")")
           ELSE Walk(c, IF Enabled(st, x) THEN Effect(st, x) ELSE st, M!After(m, x.led), n + 1)
Why(c) == Walk(c, LearnAll(Start, c.fresh, 1), M!Empty, 1)
Inv == Report(Why(Cases[i]))
=============================================================================
