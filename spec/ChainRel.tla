------------------------------- MODULE ChainRel -------------------------------
(* Relations between two runs of the chain, x and y, whose records carry digests *)
(* of their complete content.  A case: [kind, x, y], each [rs, P, err, dig, n2].  *)
(*   same   : the same products                                                  *)
(*   prefix : y was cancelled: its records are the first records of x            *)
(*   tail   : x and y end with the same m segments: the same last records        *)
(*   head   : x and y begin with the same m segments: the same first records     *)
(*   cut    : y is x without the records that are not usable: the same products  *)
EXTENDS Chain, Json

Cases == JsonDeserialize("cases.json")
VARIABLE n

CountSeg(r, S) == Len(SelectSeq(Expected(r.rs, r.P), LAMBDA s : s.seg \in S))
NSeg(r) == Len(Segments(r.rs, r.P))
LastOf(d, k) == SubSeq(d, Len(d) - k + 1, Len(d))

FirstDiff(a, b) == CHOOSE j \in 1 .. Len(a) + 1 : (j > Len(a) \/ j > Len(b) \/ a[j] # b[j]) /\ \A i \in 1 .. j - 1 : i <= Len(b) /\ a[i] = b[i]

Same(a, b, what) ==
  IF Len(a) # Len(b) THEN what \o ": " \o ToString(Len(a)) \o " against " \o ToString(Len(b)) \o " records"
  ELSE IF a # b THEN what \o ": record " \o ToString(FirstDiff(a, b)) \o " differs" ELSE "ok"

Judge(c) ==
  LET x == c.x
      y == c.y
      nx == NSeg(x)
      ny == NSeg(y)
      kt == CountSeg(x, nx - c.m + 1 .. nx)
      kh == CountSeg(x, 1 .. c.m)
  IN IF c.kind # "prefix" /\ c.kind # "same" /\ (x.err # "" \/ y.err # "")
     THEN IF x.err = "insufficient" \/ y.err = "insufficient" THEN "ok" ELSE "failed: " \o x.err \o y.err
     ELSE CASE c.kind = "same" -> IF x.err # y.err THEN "one run failed: " \o x.err \o " / " \o y.err
                                  ELSE Same(x.dig, y.dig, "the same input gives other products")
            [] c.kind = "prefix" -> IF x.err # "" \/ y.err # "" THEN "failed: " \o x.err \o y.err
                                    ELSE IF IsPrefix(y.dig, x.dig) THEN "ok"
                                    ELSE "record " \o ToString(FirstDiff(y.dig, x.dig)) \o " of the cancelled run is not that of the complete run"
            [] c.kind = "tail" -> IF kt > Len(x.dig) \/ kt > Len(y.dig) THEN "records are missing"
                                  ELSE Same(LastOf(x.dig, kt), LastOf(y.dig, kt), "depends on earlier segments")
            [] c.kind = "head" -> IF kh > Len(x.dig) \/ kh > Len(y.dig) THEN "records are missing"
                                  ELSE Same(SubSeq(x.dig, 1, kh), SubSeq(y.dig, 1, kh), "depends on later segments")
            [] c.kind = "cut" -> Same(x.dig, y.dig, "unusable records matter")

Init == n = 0
Next == n < Len(Cases) /\ n' = n + 1 /\ PrintT("VERDICT " \o ToString(n') \o " " \o Judge(Cases[n']))
Spec == Init /\ [][Next]_n
==============================================================================
