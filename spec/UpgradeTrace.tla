---------------------------- MODULE UpgradeTrace ----------------------------
(* Validates recorded upgrades.  A case is [defs, steps]: defs the default   *)
(* file of each of the keys, a step                                          *)
(*   [op, c, k, res, ret, files]  files: all configuration files afterwards, *)
(*   a sequence of [c, k, doc]; c, k: the configuration and key operated on. *)
(* op "put" is the user editing the files.                                   *)
EXTENDS Upgrade, Json

Cases == JsonDeserialize("cases.json")
Keys == {"CHD", "CNF", "CST"}
VARIABLES c, l, st, verdict
vars == <<c, l, st, verdict>>

Range(s) == {s[x] : x \in DOMAIN s}
Doc(r) == [ok |-> r.ok, v |-> r.v, meta |-> r.meta, p |-> Range(r.p)]
Files(fs) == {[c |-> f.c, k |-> f.k, d |-> Doc(f.doc)] : f \in Range(fs)}
Line == Cases[c].steps[l]
Def(k) == LET r == Cases[c].defs[k] IN [v |-> r.v, meta |-> r.meta, p |-> Range(r.p), log |-> r.log]

Init == c \in DOMAIN Cases /\ l = 1 /\ st = {} /\ verdict = "run"

Has(cf, k) == \E f \in st : f.c = cf /\ f.k = k
Of(cf, k) == (CHOOSE f \in st : f.c = cf /\ f.k = k).d
Fine(cf, k) == Has(cf, k) /\ Of(cf, k).ok
AllFine(cf) == \A k \in Keys : Fine(cf, k)
Up(cf, ks) == {IF f.c = cf /\ f.k \in ks THEN [f EXCEPT !.d = Upgraded(f.d, Def(f.k))] ELSE f : f \in st}
\* a failing upgrade leaves each file either as it was or upgraded
Partly(cf, new) == \E ks \in SUBSET {k \in Keys : Fine(cf, k)} : new = Up(cf, ks)
Versions(cf) == <<Of(cf, "CHD").v, Of(cf, "CNF").v, Of(cf, "CST").v>>
After(cf) == [n \in 1 .. 3 |-> Upgraded(Of(cf, <<"CHD", "CNF", "CST">>[n]), Def(<<"CHD", "CNF", "CST">>[n])).v]
Loadable(cf) == \A k \in Keys : Fine(cf, k) /\ Of(cf, k).v = Def(k).v
Complete(cf) == \A k \in Keys : Fine(cf, k) /\ Def(k).p \subseteq Of(cf, k).p

Clause ==
  LET s == Line
      new == Files(s.files)
      must == CASE s.op = "one" -> Fine(s.c, s.k) [] s.op = "ver" -> Fine(s.c, s.k) [] s.op = "defver" -> TRUE
                [] OTHER -> AllFine(s.c)
      Is(x) == s.ret = x
  IN  CASE s.op = "put" -> "ok"
        [] s.op = "load" ->
             IF new # st THEN "loading changed the files"
             ELSE IF s.res = "ok" /\ ~Loadable(s.c) THEN "a configuration of another version was accepted"
             ELSE IF s.res # "ok" /\ Loadable(s.c) /\ Complete(s.c) THEN "an up to date configuration is not accepted"
             ELSE "ok"
        [] must /\ s.res # "ok" -> "failed: " \o s.res
        [] ~must /\ s.res = "ok" -> "no error"
        [] ~must -> IF s.op \in {"all", "cli", "web"} THEN (IF Partly(s.c, new) THEN "ok" ELSE "files damaged by a failing upgrade")
                    ELSE IF new = st THEN "ok" ELSE "files changed by a failing call"
        [] s.op = "one" -> IF new # Up(s.c, {s.k}) THEN "files after the upgrade" ELSE
                           IF ~Is(<<Upgraded(Of(s.c, s.k), Def(s.k)).v>>) THEN "version returned" ELSE "ok"
        [] s.op \in {"all", "web", "cli"} ->
                           IF new # Up(s.c, Keys) THEN "files after the upgrade" ELSE
                           IF s.op = "web" \/ (s.op = "cli" /\ \A k \in Keys : ~NeedsUpgrade(Of(s.c, k), Def(k)) /\ s.ret = <<>>)
                           THEN "ok" ELSE IF ~Is(After(s.c)) THEN "versions reported" ELSE "ok"
        [] s.op = "ver" -> IF new # st THEN "changed the files" ELSE IF ~Is(<<Of(s.c, s.k).v>>) THEN "version" ELSE "ok"
        [] s.op \in {"vers", "cliver"} -> IF new # st THEN "changed the files" ELSE IF ~Is(Versions(s.c)) THEN "versions" ELSE "ok"
        [] s.op = "defver" -> IF new # st THEN "changed the files" ELSE IF ~Is(<<Def(s.k).v>>) THEN "default version" ELSE "ok"
        [] OTHER -> "unknown operation"

Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET k == Clause IN
           IF k = "ok" THEN l' = l + 1 /\ st' = Files(Line.files) /\ UNCHANGED <<c, verdict>>
           ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Line.op \o " " \o Line.c \o " " \o Line.k \o ": " \o k
                /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict') /\ UNCHANGED <<c, l, st>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok") /\ UNCHANGED <<c, l, st>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
