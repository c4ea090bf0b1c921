------------------------------ MODULE MCReader ------------------------------
(* Reading in chunks: variables of different lengths, a cache of one chunk.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vars, MaxLen, MaxChunk, MaxGets
VARIABLES len, size, at, cache, said, gets
vars == <<len, size, at, cache, said, gets>>
Val(v, i) == <<v, i>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ len \in [Vars -> 0 .. MaxLen] /\ size \in 1 .. MaxChunk /\ at = -1
        /\ cache = [v \in Vars |-> <<>>] /\ said = <<>> /\ gets = 0
Chunk(v, s) == [k \in 1 .. (IF Min(len[v], s + size) > s THEN Min(len[v], s + size) - s ELSE 0) |-> Val(v, s + k - 1)]
Get == \E v \in Vars, i \in 0 .. MaxLen + MaxChunk :
  LET k == i % size
      s == i - k
      c == IF s = at THEN cache ELSE [w \in Vars |-> Chunk(w, s)]
  IN  /\ gets < MaxGets
      /\ cache' = c /\ at' = s /\ gets' = gets + 1 /\ UNCHANGED <<len, size>>
      /\ said' = <<Val(v, i), i < len[v], k < Len(c[v]), IF k < Len(c[v]) THEN c[v][k + 1] ELSE <<>>>>
Next == Get
Spec == Init /\ [][Next]_vars
\* an element is given if and only if it exists, and is the one asked for
OwnValue == said # <<>> => (said[2] = said[3] /\ (said[3] => said[4] = said[1]))
=============================================================================
