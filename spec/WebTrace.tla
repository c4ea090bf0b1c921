----------------------------- MODULE WebTrace -------------------------------
(* Validates recorded histories of the real web service against Web.         *)
(* cases.json: sequence of [names, s3, cryosat, steps], each step            *)
(* [op, a, res, ret, tree].  Every case gets exactly one verdict.            *)
EXTENDS Web, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, st, verdict
vars == <<c, l, st, verdict>>

Line == Cases[c].steps[l]
Tree(x) == {<<x[i][1], x[i][2]>> : i \in DOMAIN x}

Expected == WebApply(st, Line, Cases[c])
Clause(e) ==
  IF Line.res # e.res THEN "result: expected " \o e.res \o " got " \o Line.res
  ELSE IF Tree(Line.tree) # e.st
       THEN LET d == (Tree(Line.tree) \ e.st) \cup (e.st \ Tree(Line.tree))
                p == (CHOOSE x \in d : TRUE)[1]
            IN "stored tree differs at " \o ToString(p)
  ELSE IF e.ret # Line.ret THEN "returned value: expected " \o ToString(e.ret) \o " got " \o ToString(Line.ret)
  ELSE "ok"

Quoteless(s) == s
Init == c \in DOMAIN Cases /\ l = 1 /\ st = {} /\ verdict = "run"

Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET e == Expected
               k == Clause(e)
           IN  IF k = "ok" THEN st' = e.st /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
               ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Line.op \o ": " \o k
                    /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
                    /\ UNCHANGED <<c, l, st>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok")
        /\ UNCHANGED <<c, l, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
