-------------------------------- MODULE Utf8 --------------------------------
(* Code points as bytes, and walking over the bytes of a text.               *)
EXTENDS Integers, Sequences, SequencesExt

\* ---- code point -> bytes
Limit == 1114112                                       \* 110000 hex
Tail6(c, n) == 128 + ((c \div 64^n) % 64)
Encode(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), Tail6(c, 0)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), Tail6(c, 1), Tail6(c, 0)>>
  ELSE <<240 + (c \div 262144), Tail6(c, 2), Tail6(c, 1), Tail6(c, 0)>>
Bytes(cs) == FoldLeft(LAMBDA a, c : a \o Encode(c), <<>>, cs)

\* ---- over the bytes B; a position is the number of bytes before it
Width(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4
IsTail(b) == b >= 128 /\ b < 192
Forth(B, p) == p + Width(B[p + 1])
RECURSIVE Back(_, _)
Back(B, p) == IF IsTail(B[p]) THEN Back(B, p - 1) ELSE p - 1
PointAt(B, p) ==
  LET b == B[p + 1]
      w == Width(b)
      T(n) == B[p + 1 + n] - 128
  IN  CASE w = 1 -> b
        [] w = 2 -> (b - 192) * 64 + T(1)
        [] w = 3 -> (b - 224) * 4096 + T(1) * 64 + T(2)
        [] OTHER -> (b - 240) * 262144 + T(1) * 4096 + T(2) * 64 + T(3)

\* ---- two iterators over the code points cs: how many lie before each
Step(w, op, n) ==       \* n: code points of the text; a move that is not possible is not made
  CASE op = "inc"  -> IF w[1] < n THEN <<w[1] + 1, w[2]>> ELSE w
    [] op = "dec"  -> IF w[1] > 0 THEN <<w[1] - 1, w[2]>> ELSE w
    [] op = "incp" -> IF w[1] < n THEN <<w[1] + 1, w[1]>> ELSE w      \* b = a++
    [] op = "decp" -> IF w[1] > 0 THEN <<w[1] - 1, w[1]>> ELSE w      \* b = a--
    [] op = "copy" -> <<w[1], w[1]>>
    [] op = "swap" -> <<w[2], w[1]>>
    [] op = "new"  -> <<w[1], 0>>                                     \* b at the beginning
=============================================================================
