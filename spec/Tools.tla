------------------------------- MODULE Tools -------------------------------
(* The command-line tools: files, the programs that read and write them, and *)
(* what each program prints.                                                 *)
(*   file content: [k |-> "none"] | [k |-> "lex" / "clex", n |-> lexicon]    *)
(*                 | [k |-> "gmr", n |-> grammar] | [k |-> "junk"]           *)
(*   a lexicon: [x entries, ls its lines]; a grammar: [g sections, ls lines] *)
EXTENDS Pipeline
G == INSTANCE GrammarLoad
L == INSTANCE LexiconLoad

None == [k |-> "none", n |-> 0]

\* ---- what is printed -----------------------------------------------------------
TokenLine(t, std, cs, out, flag) ==
  "TOKEN:\t" \o Str(t) \o "\t" \o std \o "\t" \o L!TypeText(cs) \o "\t" \o out \o "\t\t" \o (IF flag THEN "1" ELSE "0") \o "\n"
PhraseText(p) == JoinWith([n \in 1..Len(p) |-> TokenLine(p[n].t, "", p[n].c, BAD, p[n].l)], "")
Dashes == "-------------------------------\n"
AddressLines(t) == "Address: '" \o Str(t) \o "'\nNormalized: '" \o Str(Nfc(t)) \o "'\nUpperCase: '" \o Str(Upper(Nfc(t))) \o "'\n"

DefaultFilter == {"PUNCT", "SPACE", "EMDASH", "STOPWORD"}

\* of one address: what precedes the answer, the answer, the rows; rc the exit status
\* (a message for a file that cannot be read or used ends the run)
Answer(a, rc) == [a |-> a, s |-> -1, b |-> "", rows |-> <<>>, rc |-> rc, died |-> FALSE]
Died == [a |-> "", s |-> -1, b |-> "", rows |-> <<>>, rc |-> 1, died |-> TRUE]
Parse(t, lname, lf, x, gname, gf, gr, filter) ==
  IF lf.k = "none" THEN Answer(AddressLines(t) \o "ERROR: failed to open '" \o lname \o "' for read!\n", 1)
  ELSE IF lf.k \notin {"lex", "clex"} THEN Died
  ELSE
  LET ps == AllPhrases(t, x, filter)
      head == AddressLines(t) \o JoinWith([n \in 1..Len(ps) |-> Dashes \o PhraseText(ps[n])], "") \o Dashes
  IN  IF gf.k = "none" THEN Answer(head \o "ERROR: failed to open '" \o gname \o "' for read!\n", 1)
      ELSE
      LET v == G!Verdict(G!Loaded(gr.ls))
      IN  IF v.err # "" THEN Answer(head \o "Runtime Error: " \o v.err \o "\n", 1)
          ELSE
          LET cs == [n \in 1..Len(ps) |-> Classes(ps[n])]
              b == Best(gr.g, cs)
              pre == head \o (IF v.status = 0 THEN "OK" ELSE "WARNING") \o " loading grammar: " \o v.issues \o "\n"
          IN  IF b.phrase = 0 THEN Answer(pre \o "#### Failed to find a match (searchAndReclassBest)(-1)\n", 1)
              ELSE LET p == ps[b.phrase]
                       ts == Assigned(p, b.d)
                   IN  [a |-> pre, s |-> Sum(b.d),
                        b |-> JoinWith([n \in 1..Len(p) |-> TokenLine(p[n].t, StdText(p[n].t, ts[n].c, x), {ts[n].c}, ts[n].o, p[n].l)], "")
                              \o "matched: " \o PatternText(b.d) \o ", " \o ToString(Len(b.d)) \o "\n",
                        rows |-> AllRows(gr.g, cs), rc |-> 0, died |-> FALSE]

\* the tokens of an address, as two of the tools print them
TokensText(t, x, filter) == PhraseText(Tokens(Canon(Canon(t)), x, filter))

GrammarOut(gf, gr) == IF gf.k # "gmr" THEN [ok |-> FALSE, text |-> ""]
                      ELSE LET st == G!Loaded(gr.ls)
                           IN  IF G!Verdict(st).err # "" THEN [ok |-> FALSE, text |-> ""] ELSE [ok |-> TRUE, text |-> G!GrammarText(st) \o "\n"]

\* ---- files: f is a function from name to content --------------------------------
FileAt(f, n) == IF n \in DOMAIN f THEN f[n] ELSE None
Put(f, n, c) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN c ELSE f[m]]
\* compiling reads one file and replaces another; if it cannot read, it replaces nothing
Compiled(f, a, b) == IF FileAt(f, a).k = "lex" THEN Put(f, b, [k |-> "clex", n |-> FileAt(f, a).n]) ELSE f

\* ---- the scripts ---------------------------------------------------------------------
\* lines of a lexicon that another one has no key for
IsBlankOrComment(l) == LET n == SkipWhile(l, 1, L!IsSpace) IN n > Len(l) \/ l[n] = "#"
IsHead(l) == IsPrefixOf(L!LEXICON, l)
KeyOf(l) == LET f == L!Tab(l) IN IF f[1] = L!LEXENTRY THEN L!FieldAt(f, 2) ELSE f[1]
Body(ls) == SelectSeq(ls, LAMBDA l : ~IsBlankOrComment(l))
WellFormed(ls) == LET b == Body(ls) IN b = <<>> \/ IsHead(b[1])
EntryLines(ls) == LET b == Body(ls) IN IF b = <<>> THEN <<>> ELSE Tail(b)
OnlyIn(b, a) == LET ks == {KeyOf(EntryLines(a)[n]) : n \in 1..Len(EntryLines(a))} IN SelectSeq(EntryLines(b), LAMBDA l : KeyOf(l) \notin ks)

\* ---- converted rules: in ... -1 out ... -1 kind score -> sections of rules
PagcIn == << "NUMBER", "WORD", "TYPE", "QUALIF", "BADTOKEN", "TYPE", "ROAD", "STOPWORD", "RR", "DASH", "CITY", "PROV", "NATION", "AMPERS", "BOXH", "ORD", "UNITH",
  "UNITT", "SINGLE", "BUILDH", "MILE", "DOUBLE", "DIRECT", "MIXED", "BUILDT", "FRACT", "PCT", "PCH", "QUINT", "QUAD", "PUNCT", "SPACE", "PLACEN", "EMDASH" >>
PagcOut == << "BLDNG", "HOUSE", "PREDIR", "QUALIF", "PRETYP", "STREET", "SUFTYP", "SUFDIR", "RR", "EXTRA", "CITY", "PROV", "NATION", "POSTAL", "BOXH", "BOXT", "UNITH", "UNITT" >>
PagcSections == << "MACRO", "MICRO", "ARC", "HOUSE", "BUILDING" >>
\* r: [in, out (numbers), kind, score], given well formed; score in twentieths
RuleLine(r) == JoinWith([n \in 1..Len(r.in) |-> PagcIn[r.in[n] + 1]], " ") \o " -> " \o JoinWith([n \in 1..Len(r.out) |-> PagcOut[r.out[n] + 1]], " ") \o " -> " \o G!Dec(50000 * r.score)
Good(r) == Len(r.in) = Len(r.out) /\ r.kind \in 0..4
\* the longest first, those of one length in their order
RECURSIVE LongestFirst(_, _)
LongestFirst(rs, n) == IF n = 0 THEN <<>> ELSE SelectSeq(rs, LAMBDA r : Len(r.in) = n) \o LongestFirst(rs, n - 1)
ConvertedRules(rs) ==
  LET good == SelectSeq(rs, LAMBDA r : Good(r))
      Sec(k) == LET mine == LongestFirst(SelectSeq(good, LAMBDA r : r.kind = k), 40)
                IN  "[" \o PagcSections[k + 1] \o "]\n" \o JoinWith([n \in 1..Len(mine) |-> RuleLine(mine[n]) \o "\n"], "") \o "\n"
  IN  "[ADDRESS]\n@MICRO @MACRO\n@HOUSE @ARC @MACRO\n@BUILDING @MICRO @MACRO\n@BUILDING @HOUSE @ARC @MACRO\n\n" \o Sec(0) \o Sec(1) \o Sec(2) \o Sec(3) \o Sec(4)

\* ---- converted words: number, word, kind, standard -> one entry for each word and standard
PagcTypes == [PagcIn EXCEPT ![6] = "BADTOKEN"]
\* es: [w, k, s] texts and a number; in the order of the bytes of word, tab, standard
PairsOf(es) == {<<es[n].w, es[n].s>> : n \in 1..Len(es)}
KindsOf(es, p) == LET m == SelectSeq(es, LAMBDA e : <<e.w, e.s>> = p) IN [n \in 1..Len(m) |-> PagcTypes[m[n].k + 1]]
EntryLine(es, p) == "LEXENTRY:\t" \o Str(p[1]) \o "\t" \o Str(p[2]) \o "\t" \o JoinWith(KindsOf(es, p), ",") \o "\t\n"
ConvertedWords(es) ==
  LET o == L!Sorted({p[1] \o <<"\t">> \o p[2] : p \in PairsOf(es)})
  IN  JoinWith([n \in 1..Len(o) |-> EntryLine(es, << L!Tab(o[n])[1], L!Tab(o[n])[2] >>)], "")
ConvertedHead == "LEXICON:\tpagc-converted\tUSA\ten_US\t\n"

\* ---- the statements that put lexicons and grammars in a table
Quoted(t) == JoinWith([n \in 1..Len(t) |-> IF t[n] = "'" THEN "''" ELSE t[n]], "")
CreateTable == "drop table if exists as_config cascade;\ncreate table as_config (\n    id serial not null primary key,\n    countrycode char(2),\n    countryname text,\n    dataset text,\n    lexicon text,\n    clexicon text,\n    grammar text,\n    filter text\n);\n"
LoadHead(create) == "set client_encoding to 'utf8';\nbegin;\n" \o (IF create THEN CreateTable ELSE "")
LoadTail == "update as_config set clexicon=as_compile_lexicon(lexicon);\ncreate index as_config_countrycode_idx on as_config using btree (countrycode);\ncommit;\nanalyze as_config;\n"
\* the country of a locale, in small letters: what follows the first underscore, else all of it
LETTERS == Chars("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
letters == Chars("abcdefghijklmnopqrstuvwxyz")
Low(c) == IF c \in ToSet(LETTERS) THEN letters[CHOOSE n \in 1..26 : LETTERS[n] = c] ELSE c
Country(loc) == LET n == SkipWhile(loc, 1, LAMBDA c : c # "_")
                    r == IF n > 1 /\ n <= Len(loc) THEN SubSeq(loc, n + 1, Len(loc)) ELSE loc
                IN  JoinWith([m \in 1..Len(r) |-> Low(r[m])], "")
\* p: [name, ls lines of the lexicon, lex, gmr the texts]
InsertOf(p, dataset) ==
  LET head == SelectSeq(p.ls, LAMBDA l : IsPrefixOf(L!LEXICON, l))[1]
  IN  "insert into as_config (countrycode, countryname, dataset, lexicon, grammar, filter) values ( '" \o Country(L!FieldAt(L!Tab(head), 4)) \o "', '" \o p.name \o "', '" \o dataset
      \o "', '" \o Quoted(p.lex) \o "', '" \o Quoted(p.gmr) \o "', 'PUNCT,SPACE,DASH' );\n"
=============================================================================
