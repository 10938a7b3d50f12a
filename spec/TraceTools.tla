----------------------------- MODULE TraceTools -----------------------------
(* Runs of the command-line tools against Tools.tla.                         *)
(*   k = "runs" : lexs, gs the lexicons and grammars of the case, st the     *)
(*       runs in one directory, one after the other:                         *)
(*         [op "put", f, c content]  [op "compile", a, b, rc]                *)
(*         [op "t2", l, g, t, f filter or <<"default">>, rc, a, s, b, rows]  *)
(*         [op "dump", g, rc, out]  [op "t4"/"t5", l, t, rc, out, size]      *)
(*         [op "usage", rc]   one without its arguments                      *)
(*   k = "cmp", "rules", "words", "load" : the scripts                       *)
EXTENDS Tools, Judging

First(a, b) == IF a # "" THEN a ELSE b
Lx(c, n) == c.lexs[n]
NoLex == [x |-> <<>>, ls |-> <<>>]
NoGmr == [g |-> <<>>, ls |-> <<>>]

SeenT2(c, f, s) ==
  LET lf == FileAt(f, s.l)
      gf == FileAt(f, s.g)
      x == IF lf.k \in {"lex", "clex"} THEN c.lexs[lf.n].x ELSE <<>>
      gr == IF gf.k = "gmr" THEN c.gs[gf.n] ELSE NoGmr
      w == Parse(s.t, s.l, lf, x, s.g, gf, gr, IF s.f = <<"default">> THEN DefaultFilter ELSE ToSet(s.f))
  IN  IF gf.k \in {"lex", "clex", "junk"} /\ ~w.died /\ lf.k # "none" THEN (IF s.rc = 0 THEN "success with what is no grammar" ELSE "")
      ELSE IF w.died THEN (IF s.rc = 0 THEN "success with what is no lexicon" ELSE "")
      ELSE IF s.a # w.a THEN "the tokens, or the state of the grammar, are printed otherwise"
      ELSE IF s.rc # w.rc THEN "other exit status"
      ELSE IF s.s # w.s THEN "other score"
      ELSE IF s.b # w.b THEN "other answer"
      ELSE IF ~SameBag(w.rows, s.rows) THEN "the rows printed are not the derivations"
      ELSE IF \E n \in 1..(Len(s.rows) - 1) : s.rows[n + 1].s * s.rows[n].n > s.rows[n].s * s.rows[n + 1].n THEN "the rows are not in descending order of score"
      ELSE ""

SeenTok(c, f, s) ==
  LET lf == FileAt(f, s.l)
  IN  IF lf.k # "lex" THEN (IF s.rc = 0 THEN "success with what is no lexicon" ELSE "")
      ELSE LET lx == c.lexs[lf.n]
               st == L!Loaded(lx.ls)
               toks == TokensText(s.t, lx.x, IF s.op = "t5" THEN {"PUNCT"} ELSE {})
               w == IF s.op = "t4" THEN AddressLines(s.t) \o toks
                    ELSE "Lexicon: '" \o s.l \o "'\n" \o AddressLines(s.t) \o L!LexiconText("test-lex", st.lang, st.loc, st.es) \o "\n" \o "tokens.size() = " \o
                         ToString(Len(Tokens(Canon(Canon(s.t)), lx.x, {"PUNCT"}))) \o "\n" \o toks
           IN  IF s.rc # 0 THEN "failure" ELSE IF s.out # w THEN "the tokens are printed otherwise" ELSE ""

Step(c, f, s) ==
  CASE s.op = "put" -> [f |-> Put(f, s.f, s.c), why |-> ""]
    [] s.op = "compile" -> [f |-> Compiled(f, s.a, s.b), why |-> IF (s.rc = 0) # (FileAt(f, s.a).k = "lex") THEN "compile-lexicon: other exit status" ELSE ""]
    [] s.op = "t2" -> [f |-> f, why |-> SeenT2(c, f, s)]
    [] s.op \in {"t4", "t5"} -> [f |-> f, why |-> SeenTok(c, f, s)]
    [] s.op = "dump" -> [f |-> f, why |-> LET w == GrammarOut(FileAt(f, s.g), IF FileAt(f, s.g).k = "gmr" THEN c.gs[FileAt(f, s.g).n] ELSE NoGmr)
                                          IN  IF (s.rc = 0) # w.ok THEN "read-dump-grammar: other exit status" ELSE IF w.ok /\ s.out # w.text THEN "read-dump-grammar: another text" ELSE ""]
    [] s.op = "usage" -> [f |-> f, why |-> IF s.rc = 0 \/ ~s.told THEN "no complaint about missing arguments" ELSE ""]
RECURSIVE Runs(_, _, _)
Runs(c, f, n) == IF n > Len(c.st) THEN "" ELSE LET r == Step(c, f, c.st[n]) IN IF r.why # "" THEN r.why ELSE Runs(c, r.f, n + 1)

CheckCmp(c) ==
  IF ~WellFormed(c.a) \/ ~WellFormed(c.b) THEN (IF c.rc = 0 THEN "no complaint about a file without a header" ELSE "")
  ELSE IF c.rc # 0 THEN "failure" ELSE IF c.out # [n \in 1..Len(OnlyIn(c.b, c.a)) |-> Str(OnlyIn(c.b, c.a)[n])] THEN "not the entries only the second has" ELSE ""

CheckLoad(c) ==
  IF c.rc # 0 THEN "failure"
  ELSE IF c.head # LoadHead(c.create) \/ c.tail # LoadTail THEN "other statements before or after the data"
  ELSE IF ~SameBag(c.ins, [n \in 1..Len(c.ps) |-> InsertOf(c.ps[n], c.set)]) THEN "the statements do not hold the files" ELSE ""

Why(c) == CASE c.k = "runs" -> Runs(c, <<>>, 1)
            [] c.k = "cmp" -> CheckCmp(c)
            [] c.k = "rules" -> IF c.rc # 0 THEN "failure" ELSE IF c.out # ConvertedRules(c.rs) THEN "the rules are converted otherwise" ELSE ""
            [] c.k = "words" -> IF c.rc # 0 THEN "failure" ELSE IF c.out # ConvertedHead \o ConvertedWords(c.es) THEN "the words are converted otherwise" ELSE ""
            [] c.k = "load" -> CheckLoad(c)
Inv == Report(Why(Cases[i]))
=============================================================================
