---------------------------- MODULE TraceSearch ----------------------------
(* Records of the implementation's search against Search.tla.               *)
(*   k = "paths" : g, root, p, paths     all derivations reported            *)
(*   k = "best"  : g, ps, phrase tokens of the answer [c, o], s, n, pat      *)
(*   k = "rows"  : g, ps, rows [t, s, n]                                     *)
EXTENDS Search, Judging

CheckPaths(c) ==
  LET ds == DerivationsFrom(c.g, c.root, c.p)
  IN  IF ~SubBag(c.paths, ds)
      THEN (IF \E x \in 1..Len(c.paths) : Count(c.paths[x], ds) = 0 THEN "a reported derivation is not one of the grammar"
            ELSE "a derivation is reported more often than it exists")
      ELSE IF Len(ds) # Len(c.paths) THEN "a derivation of the grammar is not reported" ELSE ""

CheckBest(c) ==
  LET b == Best(c.g, c.ps)
  IN  IF b.phrase = 0
      THEN IF c.s = -1 /\ c.toks = <<>> THEN "" ELSE "an answer where no phrase matches"
      ELSE IF c.s = -1 THEN "no answer although a phrase matches"
      ELSE IF c.s # Sum(b.d) \/ c.n # Len(b.d) THEN "score or rule count is not that of the best derivation"
      ELSE IF c.pat # PatternText(b.d) THEN "pattern is not that of the preferred derivation"
      ELSE IF Len(c.toks) # Len(c.ps[b.phrase]) THEN "the answer has not one token per token of the phrase"
      ELSE IF \E x \in 1..Len(c.toks) : c.toks[x].t # c.ts[b.phrase][x] THEN "the answer has other tokens than the phrase"
      ELSE IF \E x \in 1..Len(c.toks) : c.toks[x].c # << InOfDeriv(b.d)[x] >> \/ c.toks[x].o # OutOfDeriv(b.d)[x]
           THEN "a token is not reclassified as the derivation says"
      ELSE ""

CheckRows(c) ==
  LET rows == AllRows(c.g, c.ps)
  IN  IF rows = <<>>
      THEN IF c.rows = << [t |-> NoMatchText, s |-> -1, n |-> -1] >> THEN "" ELSE "rows where no phrase matches"
      ELSE IF ~SameBag(rows, c.rows) THEN "the rows are not the derivations of the phrases, with their scores"
      ELSE IF c.sorted /\ \E x \in 1..(Len(c.rows) - 1) : c.rows[x + 1].s * c.rows[x].n > c.rows[x].s * c.rows[x + 1].n
           THEN "rows are not in descending order of score"
      ELSE ""

\* only the bound: nothing is reported that takes more expansions than allowed (what else
\* may be wrong with a derivation is the matter of "paths" and "rows")
CheckBound(c) ==
  LET ds == DerivationsFrom(c.g, "ADDRESS", c.p)
      over == IF SubBag(c.paths, ds) THEN {} ELSE { x \in 1..Len(c.paths) : Count(c.paths[x], c.paths) > Count(c.paths[x], ds) }
  IN  IF over = {} THEN ""
      ELSE LET wide == Beyond(c.g, c.p, 3)
           IN  IF \E x \in over : Count(c.paths[x], wide) > Count(c.paths[x], ds) THEN "a derivation beyond the bound on meta expansions is reported" ELSE ""
RowsOf(ds) == [j \in 1..Len(ds) |-> [t |-> PatternText(ds[j]), s |-> Sum(ds[j]), n |-> Len(ds[j])]]
CheckRowBound(c) ==
  LET rows == AllRows(c.g, c.ps)
      over == IF SubBag(c.rows, rows) THEN {} ELSE { x \in 1..Len(c.rows) : Count(c.rows[x], c.rows) > Count(c.rows[x], rows) }
  IN  IF over = {} THEN ""
      ELSE LET wide == Flatten([k \in 1..Len(c.ps) |-> RowsOf(Beyond(c.g, c.ps[k], 3))])
           IN  IF \E x \in over : Count(c.rows[x], wide) > Count(c.rows[x], rows) THEN "a row beyond the bound on meta expansions" ELSE ""

Why(c) == CASE c.k = "bound" -> CheckBound(c)
            [] c.k = "rowbound" -> CheckRowBound(c)
            [] c.k = "paths" -> CheckPaths(c)
            [] c.k = "best" -> CheckBest(c)
            [] c.k = "rows" -> CheckRows(c)
Inv == Report(Why(Cases[i]))
=============================================================================
