-------------------------------- MODULE Text --------------------------------
(* Characters, texts and names.  A text is a sequence of one-character       *)
(* strings.  ASCII is classified here; what a run needs beyond ASCII is a    *)
(* table in uni.json, computed from the Unicode database of another          *)
(* implementation than the one under test (Python's unicodedata):            *)
(*   kind  character -> L letter, N digit, M non-spacing mark, C other mark, *)
(*         P punctuation, W white space, O other   (absent: O)               *)
(*   up    character -> its upper-case text                                  *)
(*   dec   character -> its full canonical decomposition                     *)
(*   ccc   character -> canonical combining class (absent: 0)                *)
(*   comp  pair of characters (one string) -> primary composite              *)
(*   second  the characters that are the second of such a pair               *)
(*   ord   character -> code point;  bom  the byte order mark                *)
(*   vt    the vertical tab (TLA+ has no escape for it)                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Uni == JsonDeserialize("uni.json")
In_kind == DOMAIN Uni.kind
In_up == DOMAIN Uni.up
In_dec == DOMAIN Uni.dec
In_ccc == DOMAIN Uni.ccc
In_comp == DOMAIN Uni.comp
In_ord == DOMAIN Uni.ord
In_second == DOMAIN Uni.second

UPPERS == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
LOWERS == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
DIGITS == {"0","1","2","3","4","5","6","7","8","9"}
PUNCTS == {"!","\"","#","%","&","'","(",")","*",",","-",".","/",":",";","?","@","[","\\","]","_","{","}"}
BLANKS == {" ","\t","\n","\r"}      \* \v and \f are in the table
ASCIIWS == BLANKS \cup {"\f"}

TableKind(c) == IF c \in In_kind THEN Uni.kind[c] ELSE "O"

Kind(c) == IF c \in UPPERS \/ c \in LOWERS THEN "L"
           ELSE IF c \in DIGITS THEN "N"
           ELSE IF c \in PUNCTS THEN "P"
           ELSE IF c \in BLANKS THEN "W"
           ELSE TableKind(c)

IsLetter(c) == Kind(c) = "L"
IsDigit(c)  == Kind(c) = "N"
IsMark(c)   == Kind(c) \in {"M", "C"}
IsPunct(c)  == Kind(c) = "P"
IsSpace(c)  == Kind(c) = "W"
IsWordChar(c) == Kind(c) \in {"L", "N", "M", "C"}     \* what may stand inside a word token
IsRxWord(c) == Kind(c) \in {"L", "N", "M"} \/ c = "_"  \* what counts as a word character for a boundary

RECURSIVE JoinIn(_, _, _)
JoinIn(t, a, b) == IF a > b THEN "" ELSE IF a = b THEN t[a]
                   ELSE LET m == (a + b) \div 2 IN JoinIn(t, a, m) \o JoinIn(t, m + 1, b)
Str(t) == JoinIn(t, 1, Len(t))                        \* text -> string

\* string (BMP) -> text
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

All(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
Some(t, P(_)) == \E i \in 1..Len(t) : P(t[i])

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
ToSet(s) == {s[i] : i \in 1..Len(s)}
Last(s) == s[Len(s)]

\* first position >= i whose character is not P
SkipWhile(t, i, P(_)) == LET RECURSIVE S(_)
                             S(j) == IF j <= Len(t) /\ P(t[j]) THEN S(j + 1) ELSE j
                         IN  S(i)

BackWhile(t, i, P(_)) == LET RECURSIVE S(_)
                             S(j) == IF j >= 1 /\ P(t[j]) THEN S(j - 1) ELSE j
                         IN  S(i)

Trim(t, P(_)) ==
  LET a == SkipWhile(t, 1, P)
      b == BackWhile(t, Len(t), P)
  IN  IF a > b THEN <<>> ELSE SubSeq(t, a, b)

\* is k at position i of t
At(k, t, i) == i + Len(k) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(k) - 1) = k

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a

\* split on runs of the separator character; no empty pieces at the ends of the list are dropped
RECURSIVE SplitRuns(_, _, _, _)
SplitRuns(t, sep, i, cur) ==
  IF i > Len(t) THEN <<cur>>
  ELSE IF t[i] = sep
       THEN <<cur>> \o SplitRuns(t, sep, SkipWhile(t, i, LAMBDA c : c = sep), <<>>)
       ELSE SplitRuns(t, sep, i + 1, Append(cur, t[i]))

\* split on every separator
RECURSIVE SplitEach(_, _, _)
SplitEach(t, sep, i) ==
  LET j == SkipWhile(t, i, LAMBDA c : c # sep)
  IN  <<SubSeq(t, i, j - 1)>> \o (IF j > Len(t) THEN <<>> ELSE SplitEach(t, sep, j + 1))

Split(t, sep) == SplitEach(t, sep, 1)

\* maximal runs of non-separator characters
Words(t, P(_)) ==
  LET RECURSIVE W(_)
      W(i) == LET a == SkipWhile(t, i, P)
                  b == SkipWhile(t, a, LAMBDA c : ~P(c))
              IN  IF a > Len(t) THEN <<>> ELSE <<SubSeq(t, a, b - 1)>> \o W(b)
  IN  W(1)

\* (by halves: long sequences need not copy their rest at every element)
RECURSIVE FlattenIn(_, _, _)
FlattenIn(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                       ELSE LET m == (a + b) \div 2 IN FlattenIn(ss, a, m) \o FlattenIn(ss, m + 1, b)
Flatten(ss) == FlattenIn(ss, 1, Len(ss))

RECURSIVE JoinWithIn(_, _, _, _)                      \* strings
JoinWithIn(ss, sep, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                             ELSE LET m == (a + b) \div 2 IN JoinWithIn(ss, sep, a, m) \o sep \o JoinWithIn(ss, sep, m + 1, b)
JoinWith(ss, sep) == JoinWithIn(ss, sep, 1, Len(ss))

Count(x, s) == Cardinality({n \in 1..Len(s) : s[n] = x})

\* nothing more often in a than in b; the same things in both (first the cases decided without counting)
SubBag(a, b) == a = b \/ LET A == ToSet(a) IN
                  IF Cardinality(A) = Len(a) THEN A \subseteq ToSet(b) ELSE \A x \in A : Count(x, a) <= Count(x, b)
SameBag(a, b) == Len(a) = Len(b) /\ SubBag(a, b)

(* ---- case and canonical equivalence ------------------------------------ *)
AZ == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
az == "abcdefghijklmnopqrstuvwxyz"
UpTab == [c \in LOWERS |-> LET i == CHOOSE n \in 1..26 : SubSeq(az, n, n) = c IN SubSeq(AZ, i, i)]
UpChar(c) == IF c \in LOWERS THEN <<UpTab[c]>>
             ELSE IF c \in In_up THEN Uni.up[c] ELSE <<c>>
Upper(t) == IF \A i \in 1..Len(t) : t[i] \in UPPERS THEN t
            ELSE Flatten([i \in 1..Len(t) |-> UpChar(t[i])])

Ccc(c) == IF c \in In_ccc THEN Uni.ccc[c] ELSE 0
Decompose(t) == Flatten([i \in 1..Len(t) |-> IF t[i] \in In_dec THEN Uni.dec[t[i]] ELSE <<t[i]>>])

\* canonical ordering: a mark moves before its left neighbour while that one is a mark of a higher class
RECURSIVE Sift(_, _)
Sift(t, i) == IF i > 1 /\ Ccc(t[i]) # 0 /\ Ccc(t[i-1]) > Ccc(t[i])
              THEN Sift([t EXCEPT ![i-1] = t[i], ![i] = t[i-1]], i - 1) ELSE t
RECURSIVE Order(_, _)
Order(t, i) == LET j == SkipWhile(t, i, LAMBDA c : c \notin In_ccc)
               IN  IF j > Len(t) THEN t ELSE Order(Sift(t, j), j + 1)

\* canonical composition: out is built from the left; s is the index in out of the last starter (0: none)
RECURSIVE Comp(_, _, _, _)
Comp(t, i, out, s) ==
  IF i > Len(t) THEN out
  ELSE LET c == t[i]
           lastCcc == IF s = 0 THEN 0 ELSE Ccc(out[Len(out)])
           free == s > 0 /\ (Len(out) = s \/ (lastCcc # 0 /\ lastCcc < Ccc(c)))
           pair == IF s = 0 THEN "" ELSE out[s] \o c
       IN  IF free /\ pair \in In_comp
           THEN Comp(t, i + 1, [out EXCEPT ![s] = Uni.comp[pair]], s)
           ELSE Comp(t, i + 1, Append(out, c), IF Ccc(c) = 0 THEN Len(out) + 1 ELSE s)

\* no character below U+0300 composes with its left neighbour
AllLow(t) == \A i \in 1..Len(t) : t[i] \in In_ord /\ Uni.ord[t[i]] < 768
\* nothing composes across a starter that is never the second of a pair: piece by piece
Fresh(c) == c \notin In_ccc /\ c \notin In_second
RECURSIVE CompFrom(_, _)
CompFrom(t, i) == IF i > Len(t) THEN <<>>
                  ELSE LET j == SkipWhile(t, i + 1, LAMBDA c : ~Fresh(c))
                       IN  <<Comp(SubSeq(t, i, j - 1), 1, <<>>, 0)>> \o CompFrom(t, j)
Nfc(t) == IF AllLow(t) THEN t ELSE Flatten(CompFrom(Order(Decompose(t), 1), 1))
Nfd(t) == Order(Decompose(t), 1)

\* the text the tokenizer works on
Canon(t) == Upper(Nfc(t))
=============================================================================
