---------------------------- MODULE TraceLedger ----------------------------
(* Recorded histories with the memory held after each call (Ledger.tla).     *)
EXTENDS Ledger, Judging
RECURSIVE Walk(_, _, _)
Walk(c, st, n) ==
  IF n > Len(c.calls) THEN ""
  ELSE LET x == c.calls[n]
           d == Off(st, x)
       IN  IF d = 0 THEN Walk(c, After(st, x), n + 1)
           ELSE x.fn \o ": " \o (IF d > 0 THEN ToString(d) \o " bytes are not given back" ELSE ToString(0 - d) \o " bytes too much were given back") \o " (call " \o ToString(n) \o ")"
Why(c) == Walk(c, Empty, 1)
Inv == Report(Why(Cases[i]))
=============================================================================
