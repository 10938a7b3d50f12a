------------------------------- MODULE Digest -------------------------------
(* The content digest: MD5 (RFC 1321) of a sequence of bytes.                *)
(* A 32 bit word is the pair <<high 16 bits, low 16 bits>>.                  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

W16 == 65536
Add(x, y) == LET l == x[2] + y[2] IN <<(x[1] + y[1] + (l \div W16)) % W16, l % W16>>
BAnd(x, y) == <<x[1] & y[1], x[2] & y[2]>>
BOr(x, y) == <<x[1] | y[1], x[2] | y[2]>>
BXor(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Neg(x) == <<W16 - 1 - x[1], W16 - 1 - x[2]>>
RotLow(x, n) == <<((x[1] * 2^n) % W16) + (x[2] \div 2^(16 - n)), ((x[2] * 2^n) % W16) + (x[1] \div 2^(16 - n))>>
RotL(x, n) == IF n = 16 THEN <<x[2], x[1]>> ELSE IF n > 16 THEN RotLow(<<x[2], x[1]>>, n - 16) ELSE RotLow(x, n)

F(x, y, z) == BOr(BAnd(x, y), BAnd(Neg(x), z))
G(x, y, z) == BOr(BAnd(x, z), BAnd(y, Neg(z)))
H(x, y, z) == BXor(BXor(x, y), z)
I(x, y, z) == BXor(y, BOr(x, Neg(z)))
Turn == <<<<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>>>>
\* floor(2^32 * abs(sin k)), k = 1..64
Sine == <<
  <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
  <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
  <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
  <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
  <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>,
  <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
  <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>,
  <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
  <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
  <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
  <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
  <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
  <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
  <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
  <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
  <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>> >>

Start == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>   \* 67452301 efcdab89 98badcfe 10325476

\* one of the 64 steps on <<a, b, c, d>>; X: the 16 words of the block
Word(B, n) == <<B[4*n + 4] * 256 + B[4*n + 3], B[4*n + 2] * 256 + B[4*n + 1]>>
Step(s, k, X) ==
  LET r == (k - 1) \div 16
      f == IF r = 0 THEN F(s[2], s[3], s[4]) ELSE IF r = 1 THEN G(s[2], s[3], s[4]) ELSE IF r = 2 THEN H(s[2], s[3], s[4]) ELSE I(s[2], s[3], s[4])
      x == IF r = 0 THEN k - 1 ELSE IF r = 1 THEN (5 * (k - 1) + 1) % 16 ELSE IF r = 2 THEN (3 * (k - 1) + 5) % 16 ELSE (7 * (k - 1)) % 16
      t == Add(Add(s[1], f), Add(X[x + 1], Sine[k]))
  IN  <<s[4], Add(RotL(t, Turn[r + 1][((k - 1) % 4) + 1]), s[2]), s[2], s[3]>>
Sixtyfour == [k \in 1..64 |-> k]
Block(s, B) ==
  LET X == [n \in 1..16 |-> Word(B, n - 1)]
      e == FoldLeft(LAMBDA a, k : Step(a, k, X), s, Sixtyfour)
  IN  [n \in 1..4 |-> Add(s[n], e[n])]
Blocks(s, B) == FoldLeft(LAMBDA a, n : Block(a, SubSeq(B, 64 * n - 63, 64 * n)), s, [n \in 1..(Len(B) \div 64) |-> n])

Zeros(n) == [k \in 1..n |-> 0]
\* what follows the last byte of a text of len bytes: 1 bit, zeros, the number of bits in 64 bits
Padding(len) ==
  LET r == len % 64
  IN  <<128>> \o Zeros(IF r < 56 THEN 55 - r ELSE 119 - r)
      \o <<(len % 32) * 8, (len \div 32) % 256, (len \div 8192) % 256, (len \div 2097152) % 256, len \div 536870912, 0, 0, 0>>
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexByte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
HexWord(w) == HexByte(w[2] % 256) \o HexByte(w[2] \div 256) \o HexByte(w[1] % 256) \o HexByte(w[1] \div 256)
HexOf(s) == HexWord(s[1]) \o HexWord(s[2]) \o HexWord(s[3]) \o HexWord(s[4])
MD5(B) == HexOf(Blocks(Start, B \o Padding(Len(B))))

\* ---- the same, fed piece by piece: [s: words, rest: bytes of an unfinished block, n: bytes so far]
Fresh == [s |-> Start, rest |-> <<>>, n |-> 0]
Feed(d, B) ==
  LET all == d.rest \o B
      k == (Len(all) \div 64) * 64
  IN  [s |-> Blocks(d.s, SubSeq(all, 1, k)), rest |-> SubSeq(all, k + 1, Len(all)), n |-> d.n + Len(B)]
Finish(d) == HexOf(Blocks(d.s, d.rest \o Padding(d.n)))

\* ---- the digest of a grammar or a lexicon: its lines, without the line ends
Read(B) == MD5(SelectSeq(B, LAMBDA b : b # 10))
=============================================================================
