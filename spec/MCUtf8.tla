------------------------------- MODULE MCUtf8 -------------------------------
(* Walks of two iterators over every short text: stepping over bytes agrees  *)
(* with stepping over code points.                                           *)
EXTENDS Utf8, TLC, Json
CONSTANTS Points, MaxText, MaxWalk, Emit

Texts == UNION {[1..n -> Points] : n \in 0..MaxText}
OPS == {"inc", "dec", "incp", "decp", "copy", "swap", "new"}
VARIABLES cs, w, b, h          \* text, iterators as counts of code points, as byte positions, what was done
vars == <<cs, w, b, h>>
Init == cs \in Texts /\ w = <<0, 0>> /\ b = <<0, 0>> /\ h = <<>>
B == Bytes(cs)
ByteStep(op) ==
  CASE op = "inc"  -> <<Forth(B, b[1]), b[2]>>
    [] op = "dec"  -> <<Back(B, b[1]), b[2]>>
    [] op = "incp" -> <<Forth(B, b[1]), b[1]>>
    [] op = "decp" -> <<Back(B, b[1]), b[1]>>
    [] op = "copy" -> <<b[1], b[1]>>
    [] op = "swap" -> <<b[2], b[1]>>
    [] op = "new"  -> <<b[1], 0>>
Next == /\ Len(h) < MaxWalk
        /\ \E op \in OPS : /\ Step(w, op, Len(cs)) # w
                           /\ w' = Step(w, op, Len(cs)) /\ b' = ByteStep(op) /\ h' = Append(h, op)
        /\ UNCHANGED cs
Spec == Init /\ [][Next]_vars

Agree == \A k \in {1, 2} : /\ b[k] = Len(Bytes(SubSeq(cs, 1, w[k])))
                           /\ w[k] < Len(cs) => PointAt(B, b[k]) = cs[w[k] + 1]
Report == ~Emit \/ Len(h) < MaxWalk \/ PrintT("CASE " \o ToJson([cs |-> cs, ops |-> h]))
=============================================================================
