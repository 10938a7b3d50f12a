------------------------------ MODULE MCDigest ------------------------------
(* Digests fed in pieces whose lengths lie around the ends of blocks and of  *)
(* the padding; every history of pieces is replayed in the implementation.   *)
EXTENDS Digest, TLC, Json
CONSTANTS Lens, Pieces, Emit

VARIABLES d, parts
vars == <<d, parts>>
Total(p) == FoldLeft(LAMBDA a, n : a + n, 0, p)
\* the bytes from..from+n-1 of a text without a period of 64
Bytes(from, n) == [k \in 1..n |-> ((from + k) * (from + k + 3) * 7 + ((from + k) \div 5)) % 256]
Init == d = Fresh /\ parts = <<>>
Next == Len(parts) < Pieces /\ \E n \in Lens : d' = Feed(d, Bytes(Total(parts), n)) /\ parts' = Append(parts, n)
Spec == Init /\ [][Next]_vars

Whole == Bytes(0, Total(parts))
Pieced == Finish(d) = MD5(Whole)
Report == ~Emit \/ PrintT("CASE " \o ToJson([parts |-> parts]))
\* the test suite of RFC 1321
T(B) == MD5(B)
ASSUME T(<<>>) = "d41d8cd98f00b204e9800998ecf8427e"
ASSUME T(<<97>>) = "0cc175b9c0f1b6a831c399e269772661"
ASSUME T(<<97, 98, 99>>) = "900150983cd24fb0d6963f7d28e17f72"
ASSUME T([k \in 1..26 |-> 96 + k]) = "c3fcd3d76192e4007dfb496cca67e13b"
ASSUME T([k \in 1..80 |-> 48 + (k % 10)]) = "57edf4a22be3c955ac49da2e2107b67a"
=============================================================================
