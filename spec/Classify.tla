------------------------------ MODULE Classify ------------------------------
(* The classes of one token.  A lexicon is a sequence of entries             *)
(* [w |-> text, s |-> standard text (string), t |-> classes, a |-> attachments] *)
(* in insertion order; w is a text (sequence of characters).                 *)
EXTENDS Classes

Entries(lex, w) == SelectSeq(lex, LAMBDA e : e.w = w)
ClassesOf(es) == UNION {ToSet(es[i].t) : i \in 1..Len(es)}

AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : IsDigit(t[i])
AsciiAZ(c) == c \in UPPERS \/ c \in LOWERS

\* <digits> one of seps <digits>
DigitsSepDigits(t, seps) ==
  \E k \in 2..(Len(t) - 1) : /\ t[k] \in seps
                             /\ AllDigits(SubSeq(t, 1, k - 1))
                             /\ AllDigits(SubSeq(t, k + 1, Len(t)))

\* 1-2 letters, 1-2 digits, at most 1 letter
IsPch(t) == \E a \in 1..2, b \in 1..2, c \in 0..1 :
  /\ Len(t) = a + b + c
  /\ \A i \in 1..a : AsciiAZ(t[i])
  /\ \A i \in (a + 1)..(a + b) : IsDigit(t[i])
  /\ \A i \in (a + b + 1)..(a + b + c) : AsciiAZ(t[i])
\* digit letter digit, or digit letter letter
IsPct(t) == /\ Len(t) = 3 /\ IsDigit(t[1]) /\ AsciiAZ(t[2]) /\ (IsDigit(t[3]) \/ AsciiAZ(t[3]))

\* the classes a text has by its form ({}: none)
Form(t) ==
  IF DigitsSepDigits(t, {",", "."}) THEN {"NUMBER"}
  ELSE IF AllDigits(t) THEN {"NUMBER"} \cup (IF Len(t) = 4 THEN {"QUAD"} ELSE IF Len(t) = 5 THEN {"QUINT"} ELSE {})
  ELSE IF t = <<"@">> THEN {"ATSIGN"}
  ELSE IF t = <<"/">> THEN {"SLASH"}
  ELSE IF DigitsSepDigits(t, {"/"}) THEN {"FRACT"}
  ELSE IF IsPch(t) THEN {"MIXED", "PCH"}
  ELSE IF IsPct(t) THEN {"MIXED", "PCT"}
  ELSE IF t # <<>> /\ \A i \in 1..Len(t) : IsRxWord(t[i])
       THEN IF \E i \in 1..Len(t) : IsDigit(t[i]) THEN {"MIXED"}
            ELSE {"WORD"} \cup (IF Len(t) = 1 THEN {"SINGLE"} ELSE IF Len(t) = 2 THEN {"DOUBLE"} ELSE {})
  ELSE IF t = <<"—">> THEN {"EMDASH"}
  ELSE IF t # <<>> /\ \A i \in 1..Len(t) : t[i] = "-" THEN {"DASH"}
  ELSE IF t = <<"&">> THEN {"AMPERS"}
  ELSE IF t # <<>> /\ \A i \in 1..Len(t) : IsSpace(t[i]) THEN {"SPACE"}
  ELSE IF t # <<>> /\ \A i \in 1..Len(t) : t[i] = "|" \/ IsPunct(t[i]) THEN {"PUNCT"}
  ELSE {}

\* a decimal comma becomes a point
FormText(t) == IF DigitsSepDigits(t, {",", "."}) THEN [i \in 1..Len(t) |-> IF t[i] = "," THEN "." ELSE t[i]] ELSE t

\* token: t text, c set of classes, l found in the lexicon
Classified(t, lex, default) ==
  LET cs == ClassesOf(Entries(lex, t))
      fs == Form(t)
  IN  IF cs # {} THEN [t |-> t, c |-> cs, l |-> TRUE]
      ELSE [t |-> FormText(t), c |-> IF fs = {} THEN {default} ELSE fs, l |-> FALSE]

(* ---- standard text ------------------------------------------------------ *)
\* the standard text of a token whose class was decided to be c: that of the first entry of its text
\* in that class; the text itself if there is none or it is empty
StdText(t, c, lex) ==
  LET es == SelectSeq(Entries(lex, t), LAMBDA e : \E j \in 1..Len(e.t) : e.t[j] = c)
  IN  IF es = <<>> \/ es[1].s = "" THEN Str(t) ELSE es[1].s
=============================================================================
