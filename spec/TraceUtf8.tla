----------------------------- MODULE TraceUtf8 -----------------------------
(* Records of the text services.                                             *)
(*   walk: cs code points, st: [op, a, b code points seen (-1: at the end),  *)
(*         eq, n bytes of a substring from the smaller to the larger, ea, eb *)
(*         compared with the end]                                            *)
(*   enc:  from, bs: the bytes of from, from+1, ...;  [-1] : refused         *)
(*   bare: t text, r without accents                                         *)
EXTENDS Text, Judging
U == INSTANCE Utf8

RECURSIVE Walk(_, _, _)
Walk(c, w, n) ==
  IF n > Len(c.st) THEN ""
  ELSE LET s == c.st[n]
           v == U!Step(w, s.op, Len(c.cs))
           PointOf(k) == IF v[k] < Len(c.cs) THEN c.cs[v[k] + 1] ELSE -1
           lo == IF v[1] < v[2] THEN v[1] ELSE v[2]
           hi == IF v[1] < v[2] THEN v[2] ELSE v[1]
       IN  IF s.a # PointOf(1) \/ s.b # PointOf(2) THEN "another character under the iterator"
           ELSE IF s.eq # (v[1] = v[2]) THEN "equality of iterators"
           ELSE IF s.ea # (v[1] = Len(c.cs)) \/ s.eb # (v[2] = Len(c.cs)) THEN "the end of the text"
           ELSE IF s.sub # U!Bytes(SubSeq(c.cs, lo + 1, hi)) THEN "another text between the iterators"
           ELSE Walk(c, v, n + 1)

BytesOf(n) == IF n >= U!Limit THEN <<-1>> ELSE U!Encode(n)
Bare(t) == Nfc(SelectSeq(Nfd(t), LAMBDA x : ~IsMark(x)))
Why(c) ==
  CASE c.k = "walk" -> Walk(c, <<0, 0>>, 1)
    [] c.k = "enc" -> IF \E n \in 1..Len(c.bs) : c.bs[n] # BytesOf(c.from + n - 1) THEN "the bytes of a code point" ELSE ""
    [] c.k = "bare" -> IF c.r # Bare(c.t) THEN "another text without accents" ELSE ""
    [] OTHER -> "unknown record"
Inv == Report(Why(Cases[i]))
=============================================================================
