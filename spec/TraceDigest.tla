---------------------------- MODULE TraceDigest ----------------------------
(* Digests of the implementation.                                            *)
(*   text: b bytes, h digest asked for twice (a, b), c: fed in pieces, e:    *)
(*         before it was finished, f: finished twice, o: written to a stream *)
(*   read: b bytes of a grammar or lexicon, hs its digests, each way of      *)
(*         reading it                                                        *)
EXTENDS Digest, Judging

Why(c) ==
  CASE c.k = "text" -> IF \E n \in 1..Len(c.hs) : c.hs[n] # MD5(c.b) THEN "another digest" ELSE IF c.early # "" THEN "a digest of an unfinished text" ELSE ""
    [] c.k = "read" -> IF \E n \in 1..Len(c.hs) : c.hs[n] # Read(c.b) THEN "another digest of what was read" ELSE ""
    [] OTHER -> "unknown record"
Inv == Report(Why(Cases[i]))
=============================================================================
