---------------------------- MODULE TraceLexicon ----------------------------
(* Histories of insertions and removals on a lexicon of the implementation.  *)
(*   c.x0   : entries at the start (as read)                                 *)
(*   c.ops  : [op |-> "ins" | "rem", e |-> entry]                            *)
(*   c.obs  : [n |-> operations done, what |-> "keys" | "probe" | "tok" |    *)
(*            "dump", ...]  in any number, in order                          *)
EXTENDS Tokenizer, Judging

Norm(j) == [w |-> j.w, s |-> j.s, t |-> ToSet(j.t), a |-> ToSet(j.a)]
Ents(js) == [n \in 1..Len(js) |-> Norm(js[n])]

\* entries as recorded (classes and attachments as lists); equality is by content
RECURSIVE After(_, _)
After(c, n) ==
  IF n = 0 THEN c.x0
  ELSE LET p == After(c, n - 1)
           o == c.ops[n]
           Same(x) == Norm(x) = Norm(o.e)
       IN  IF o.op = "ins" THEN (IF \E m \in 1..Len(p) : Same(p[m]) THEN p ELSE Append(p, o.e))
           ELSE SelectSeq(p, LAMBDA x : ~Same(x))

Tok(j) == [t |-> j.t, c |-> ToSet(j.c), l |-> j.l]
FindIn(x, w) == SelectSeq(x, LAMBDA e : e.w = w)

Obs(x, o) ==
  CASE o.what = "keys" ->
         IF \E n \in 1..Len(o.find) : Ents(o.find[n].es) # Ents(FindIn(x, o.find[n].k)) THEN "other entries are found under a key" ELSE ""
    [] o.what = "probe" ->
         LET K == {x[n].w : n \in 1..Len(x)}
             bad == {n \in 1..Len(o.probe) :
                       LET w == o.probe[n].w
                           pl == PrefixLen(w, x)
                           sl == SuffixLen(w, x)
                       IN  \/ o.probe[n].r # (w \in K)
                           \/ o.probe[n].p # SubSeq(w, 1, pl)
                           \/ o.probe[n].s # SubSeq(w, Len(w) - sl + 1, Len(w))}
         IN  IF bad = {} THEN "" ELSE "a word is recognized that is not in the lexicon, or the other way round"
    [] o.what = "tok" ->
         LET want == Tokens(o.t, x, {})
             got == [n \in 1..Len(o.toks) |-> Tok(o.toks[n])]
         IN  IF want = got THEN "" ELSE "a text is cut as with another lexicon"

RECURSIVE FirstBad(_, _)
FirstBad(c, n) == IF n > Len(c.obs) THEN ""
                  ELSE LET w == Obs(After(c, c.obs[n].n), c.obs[n])
                       IN  IF w # "" THEN w \o " (after " \o ToString(c.obs[n].n) \o " changes)" ELSE FirstBad(c, n + 1)
Why(c) == FirstBad(c, 1)
Inv == Report(Why(Cases[i]))
=============================================================================
