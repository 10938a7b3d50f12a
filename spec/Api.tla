--------------------------------- MODULE Api ---------------------------------
(* The C API as a state machine over calls.  A lexicon or grammar is known   *)
(* by its content (an id); handles stand for loaded contents.  An answer is  *)
(* a function of the function called, the contents, the canonical address,   *)
(* the filter and the locale - of nothing else: not of the handle, of the    *)
(* form the lexicon came in (text or compiled), of the spelling of the       *)
(* address, or of earlier calls.  The function is not computed here (that is *)
(* Pipeline): the state remembers every answer seen (known) and every later  *)
(* call with the same key has to give the same one.                          *)
(*                                                                           *)
(* state : lh, gh  handle -> content;  known  key -> answer                  *)
(* call  : [fn, l, g, form, t, loc, f, ans], what applies of it              *)
(* ans   : [k |-> "std", f, pat] | [k |-> "none"] | [k |-> "rows", rows] |   *)
(*         [k |-> "err", e] | [k |-> "ok"] | [k |-> "text"]                  *)
(* form  : "text", "comp" (compiled), "old" (compiled, an older version),    *)
(*         "kept" (compiled by the code as it was when this was written),    *)
(*         "cut" (a part of a compiled one)                                  *)
(* oom   : TRUE when memory ran out during the call: it may give an error    *)
EXTENDS Classes

Start == [lh |-> <<>>, gh |-> <<>>, known |-> <<>>]

OneShot == {"std", "parse", "match"}
ByHandle == {"stdp", "parsep"}
Loads == {"getl", "getg", "compile"}
Frees == {"freel", "freeg"}
UsesGrammar(fn) == fn \in {"std", "match", "stdp"}
LexOf(st, c) == IF c.fn \in ByHandle THEN st.lh[c.l] ELSE c.l
GmrOf(st, c) == IF ~UsesGrammar(c.fn) THEN "" ELSE IF c.fn = "stdp" THEN st.gh[c.g] ELSE c.g
What(fn) == CASE fn \in {"std", "stdp"} -> "std" [] fn \in {"parse", "parsep"} -> "parse" [] OTHER -> fn

\* what Turkic locales do with i; the other locales in use agree with the default
RECURSIVE Dotted(_, _)
Dotted(t, n) == IF n > Len(t) THEN <<>> ELSE <<IF t[n] = "i" THEN Uni.dotI ELSE t[n]>> \o Dotted(t, n + 1)
Lang2(loc) == IF loc = "tr" \/ loc = "tr_TR" \/ loc = "az" \/ loc = "az_AZ" THEN "tr" ELSE ""
\* the API brings the address into this form, and the tokenizer once more:
\* only then is it closed (i + U+0307 becomes U+0130 on the second round)
CanonIn(loc, t) == Canon(IF Lang2(loc) = "tr" THEN Upper(Dotted(Nfc(t), 1)) ELSE Canon(t))

\* what the answer may depend on
Key(st, c) ==
  CASE c.fn \in OneShot \cup ByHandle -> [fn |-> What(c.fn), g |-> GmrOf(st, c), l |-> LexOf(st, c), t |-> CanonIn(c.loc, c.t), f |-> ToSet(c.f)]
    [] c.fn = "getl" -> [fn |-> "lex", l |-> c.l]
    [] c.fn = "getg" -> [fn |-> "gmr", g |-> c.g]
    [] c.fn = "compile" -> [fn |-> "comp", l |-> c.l]
    [] OTHER -> [fn |-> c.fn]

\* the shape of an answer: exactly one of result and error; no match only where it exists
ShapeOk(c) ==
  CASE c.fn \in {"std", "stdp"} -> c.ans.k \in {"std", "none", "err"}
    [] c.fn \in {"parse", "parsep"} -> c.ans.k \in {"rows", "err"}
    [] c.fn = "match" -> c.ans.k = "err" \/ (c.ans.k = "rows" /\ Len(c.ans.rows) >= 1)
    [] c.fn \in {"getl", "getg"} -> c.ans.k \in {"ok", "err"}
    [] c.fn = "compile" -> c.ans.k \in {"text", "err"}
    [] OTHER -> c.ans.k = "ok"
ErrOk(c) == c.ans.k = "err" => c.ans.e # ""

RECOMPILE == "Re-compile-lexicon"
Knows(st, k) == \E n \in 1..Len(st.known) : st.known[n].k = k
Answer(st, k) == (CHOOSE n \in 1..Len(st.known) : st.known[n].k = k)
Oom(c) == "oom" \in DOMAIN c
HasForm(c) == "form" \in DOMAIN c
FormOf(c) == IF HasForm(c) THEN c.form ELSE "text"

\* "" if the state allows the call to answer as it did
Judge(st, c) ==
  IF ~ShapeOk(c) THEN c.fn \o ": neither one result nor one error"
  ELSE IF ~ErrOk(c) THEN c.fn \o ": an error without a text"
  ELSE IF Oom(c) /\ c.ans.k = "err" THEN ""
  ELSE IF FormOf(c) = "old" /\ c.fn # "compile" THEN (IF c.ans.k = "err" /\ c.ans.e = RECOMPILE THEN "" ELSE c.fn \o ": a compiled lexicon of an older version is not refused as such")
  ELSE LET k == Key(st, c)
       IN  IF ~Knows(st, k) THEN ""
           ELSE LET a == st.known[Answer(st, k)].a
                IN  IF c.ans = a THEN ""
                    ELSE IF FormOf(c) = "cut" /\ c.ans.k = "err" THEN ""
                    ELSE IF FormOf(c) = "kept" /\ c.ans.k = "err" /\ c.ans.e = RECOMPILE THEN ""
                    ELSE c.fn \o ": another answer than to the same question before"

Learn(st, c) == IF FormOf(c) \in {"text", "comp"} /\ c.fn \notin Frees /\ ~Oom(c) /\ ~Knows(st, Key(st, c))
                THEN [st EXCEPT !.known = Append(@, [k |-> Key(st, c), a |-> c.ans])] ELSE st
Bind(f, h, x) == [y \in DOMAIN f \cup {h} |-> IF y = h THEN x ELSE f[y]]
Drop(f, h) == [y \in DOMAIN f \ {h} |-> f[y]]
Effect(st, c) ==
  LET s == Learn(st, c)
  IN  CASE c.fn = "getl" /\ c.ans.k = "ok" -> [s EXCEPT !.lh = Bind(@, c.h, c.l)]
        [] c.fn = "getg" /\ c.ans.k = "ok" -> [s EXCEPT !.gh = Bind(@, c.h, c.g)]
        [] c.fn = "freel" -> [s EXCEPT !.lh = Drop(@, c.h)]
        [] c.fn = "freeg" -> [s EXCEPT !.gh = Drop(@, c.h)]
        [] OTHER -> s
\* a call on a handle needs the handle
Enabled(st, c) ==
  /\ c.fn \in ByHandle => c.l \in DOMAIN st.lh
  /\ c.fn = "stdp" => c.g \in DOMAIN st.gh
  /\ c.fn = "freel" => c.h \in DOMAIN st.lh
  /\ c.fn = "freeg" => c.h \in DOMAIN st.gh
=============================================================================
