--------------------------- MODULE TracePipeline ---------------------------
(* Records of the C API against Pipeline.tla.                                *)
(*   t, x, g, f : address, lexicon, grammar, filter                          *)
(*   std   : [none, f, pat]       asp "std", or "choice": only none and pat   *)
(*   parse : rows                 asp "parse", or "cut": without the classes  *)
(*   match : rows                 asp "match"                                *)
EXTENDS Pipeline, Judging

Asp(c, a) == \E n \in 1..Len(c.asp) : c.asp[n] = a

CheckStd(c) ==
  LET w == Standardized(c.t, c.x, c.g, ToSet(c.f))
      r == c.std
  IN  IF w.none THEN (IF r.none THEN "" ELSE "a result where nothing matches")
      ELSE IF r.none THEN "no result although the address matches"
      ELSE IF r.f # w.f THEN (IF DOMAIN r.f # DOMAIN w.f THEN "other fields are filled" ELSE "a field has another text")
      ELSE IF r.pat # w.pat THEN "the pattern is not that of the chosen derivation"
      ELSE ""

CheckChoice(c) ==
  LET w == Standardized(c.t, c.x, c.g, ToSet(c.f))
  IN  IF w.none # c.std.none THEN (IF w.none THEN "a result where nothing matches" ELSE "no result although the address matches")
      ELSE IF ~w.none /\ c.std.pat # w.pat THEN "the pattern is not that of the best derivation" ELSE ""

CheckCut(c) ==
  LET w == ParseRows(c.t, c.x, ToSet(c.f))
  IN  IF Len(w) # Len(c.parse) THEN "not one row for each token of each tokenization"
      ELSE IF \E n \in 1..Len(w) : w[n].pat # c.parse[n].pat \/ w[n].seq # c.parse[n].seq THEN "the rows are numbered otherwise"
      ELSE IF \E n \in 1..Len(w) : w[n].word # c.parse[n].word THEN "a row has another token" ELSE ""

CheckParse(c) ==
  LET w == ParseRows(c.t, c.x, ToSet(c.f))
  IN  IF Len(w) # Len(c.parse) THEN "not one row for each token of each tokenization"
      ELSE IF \E n \in 1..Len(w) : w[n].pat # c.parse[n].pat \/ w[n].seq # c.parse[n].seq THEN "the rows are numbered otherwise"
      ELSE IF \E n \in 1..Len(w) : w[n].word # c.parse[n].word \/ w[n].inclass # c.parse[n].inclass THEN "a row has another token"
      ELSE ""

CheckMatch(c) ==
  LET w == MatchRows(c.t, c.x, c.g, ToSet(c.f))
  IN  IF ~SameBag(w, c.match) THEN "the rows are not the derivations of the address, with their scores"
      ELSE IF \E n \in 1..(Len(c.match) - 1) : c.match[n + 1].s * c.match[n].n > c.match[n].s * c.match[n + 1].n
           THEN "the rows are not in descending order of score" ELSE ""

First(a, b) == IF a # "" THEN a ELSE b
Why(c) == First(IF Asp(c, "choice") THEN CheckChoice(c) ELSE "", First(IF Asp(c, "cut") THEN CheckCut(c) ELSE "", First(IF Asp(c, "std") THEN CheckStd(c) ELSE "",
          First(IF Asp(c, "parse") THEN CheckParse(c) ELSE "", IF Asp(c, "match") THEN CheckMatch(c) ELSE ""))))
Inv == Report(Why(Cases[i]))
=============================================================================
