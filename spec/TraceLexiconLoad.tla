-------------------------- MODULE TraceLexiconLoad --------------------------
(* Records of the implementation's lexicon reader against LexiconLoad.tla.   *)
(*   k = "load" : ls lines, exc, lang, locale, find [key, entries] for the   *)
(*                keys asked for, dump (name: the one given, or unknown when read from a text)                            *)
(*   k = "line" : l line without LEXENTRY problems, entry, dump, again       *)
EXTENDS LexiconLoad, Judging

Ent(j) == [w |-> j.w, s |-> j.s, t |-> ToSet(j.t), a |-> ToSet(j.a)]
Ents(js) == [n \in 1..Len(js) |-> Ent(js[n])]

CheckLoad(c) ==
  LET st == Loaded(c.ls)
  IN  IF st.err # "" /\ c.exc = "" THEN "a lexicon is accepted that has to be refused: " \o st.err
      ELSE IF st.err = "" /\ c.exc # "" THEN "a correct lexicon is refused: " \o c.exc
      ELSE IF st.err # c.exc THEN "refused for another reason: " \o st.err
      ELSE IF st.err # "" THEN ""
      ELSE IF c.lang # st.lang THEN "other language"
      ELSE IF c.locale # st.loc THEN "other locale"
      ELSE IF \E n \in 1..Len(c.find) : Ents(c.find[n].es) # Find(st.es, c.find[n].k) THEN "other entries are found under a key"
      ELSE IF c.dump # LexiconText(c.name, st.lang, st.loc, st.es) THEN "the lexicon read is another one"
      ELSE ""

CheckAgain(c) ==
  LET st == Loaded(c.ls)
  IN  IF st.err # "" THEN ""
      ELSE IF c.exc # "" THEN "the text of a lexicon is refused: " \o c.exc
      ELSE IF c.d1 # LexiconText("x", st.lang, st.loc, st.es) THEN "the text is not that of the lexicon"
      ELSE IF c.d2 # c.d1 THEN "the text does not read back as the same lexicon"
      ELSE ""

CheckLine(c) ==
  LET e == EntryOf(c.l)
      Att(n) == n \in e.a
      pre == Att("ATT_PRE") \/ Att("DET_PRE")
      suf == Att("ATT_SUF") \/ Att("DET_SUF")
      flags == << pre, suf, Att("ATT_PRE") \/ Att("ATT_SUF"), e.a = {} \/ Att("DET_PRE") \/ Att("DET_SUF"), Att("ATT_PRE"), Att("ATT_SUF") >>
  IN  IF Ent(c.e) # e THEN "the entry read is another one"
      ELSE IF c.flags # flags THEN "the attachment predicates do not follow from the attachments"
      ELSE IF c.dump # EntryText(e) THEN "the text is not that of the entry"
      ELSE IF Ent(c.again) # e \/ ~c.same THEN "the text of the entry does not read back as the entry"
      ELSE ""

Why(c) == CASE c.k = "load" -> CheckLoad(c)
            [] c.k = "again" -> CheckAgain(c)
            [] c.k = "line" -> CheckLine(c)
Inv == Report(Why(Cases[i]))
=============================================================================
