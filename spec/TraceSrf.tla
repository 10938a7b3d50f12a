------------------------------ MODULE TraceSrf ------------------------------
(* Recorded calls of the SQL functions against Srf.tla.                      *)
(*   c.kind: site -> "set" | "one" | "text"                                  *)
(*   c.calls: [site, stop |-> TRUE] or [site, lib |-> answer, k, v]          *)
(* For a set-returning site lib is the sequence of rows the library gives,   *)
(* for as_standardize the record, for as_compile_lexicon the text.           *)
EXTENDS Srf, Judging
St(m, x) == IF x \in DOMAIN m THEN m[x] ELSE Idle
Set(m, x, v) == [y \in DOMAIN m \cup {x} |-> IF y = x THEN v ELSE m[y]]
RECURSIVE Walk(_, _, _)
Walk(c, m, n) ==
  IF n > Len(c.calls) THEN ""
  ELSE
  LET x == c.calls[n]  at == " (call " \o ToString(n) \o ")" IN
  IF "stop" \in DOMAIN x THEN Walk(c, Set(m, x.site, Idle), n + 1)
  ELSE IF x.fails THEN
    (IF x.k # "err" THEN "no error for arguments that cannot be loaded" \o at ELSE Walk(c, m, n + 1))
  ELSE IF x.k = "err" THEN "an error for sound arguments" \o at
  ELSE IF c.kind[x.site] = "set" THEN
    LET o == Opened(St(m, x.site), x.lib) IN
    IF GivesRow(o) THEN
      (IF x.k # "row" THEN "the set ends before the last row" \o at
       ELSE IF x.v # Row(o) THEN "a row differs from that of the library" \o at
       ELSE Walk(c, Set(m, x.site, AfterCall(o)), n + 1))
    ELSE IF x.k # "done" THEN "a row after the last one" \o at
    ELSE Walk(c, Set(m, x.site, Idle), n + 1)
  ELSE IF x.k # "one" THEN "no single result" \o at
  ELSE IF x.v # x.lib THEN "the result differs from that of the library" \o at
  ELSE Walk(c, m, n + 1)
Why(c) == Walk(c, <<>>, 1)
Inv == Report(Why(Cases[i]))
=============================================================================
