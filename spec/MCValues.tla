------------------------------ MODULE MCValues ------------------------------
(* Every short history of calls on two objects of a kind.                    *)
EXTENDS Values
CONSTANTS Which, Ops, MaxLen, Emit

VARIABLES x, y, h
vars == <<x, y, h>>
Init == x = New(Which) /\ y = New(Which) /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \E n \in 1..Len(Ops) : LET r == Call(Which, x, y, Ops[n]) IN x' = r.x /\ y' = r.y /\ h' = Append(h, n)
Spec == Init /\ [][Next]_vars

Laws(v) ==
  CASE Which = "token" -> /\ TrimWhich(TrimWhich(v.text, 0), 0) = TrimWhich(v.text, 0)
                         /\ TrimWhich(TrimWhich(v.text, 1), 2) = TrimWhich(v.text, 0)
                         /\ (\A k \in 1..Len(v.text) : v.text[k] # "\t") /\ ~v.lex => TokenOf(Chars(TokenText(v))) = v
    [] Which = "rule" -> /\ ValidRule(v) \/ v = NoRule \/ (v.in = <<>> /\ v.out = <<>>) \/ v.v > 0
                        /\ Matches(v, v.in) /\ Matches(v, Sum(v, y).in) /\ (Matches(Sum(v, y), v.in) => y.in = <<>>)
                        /\ v.v > 0 /\ Len(v.in) = Len(v.out) /\ v.v < 99000000 => RuleOf(Chars(RuleText(v))) = v
    [] Which = "entry" -> /\ (\A k \in 1..Len(v.w) : v.w[k] # "\t") => L!EntryOf(Chars(L!EntryText(v))) = v
    [] Which = "meta" -> AnyRefs(Chars(MetaText(v)), 1) = v
    [] OTHER -> TRUE
Lawful == Laws(x) /\ Laws(y)
Report == ~Emit \/ Len(h) < MaxLen \/ PrintT("CASE " \o ToJson(h))
=============================================================================
