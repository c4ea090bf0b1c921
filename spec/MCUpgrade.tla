------------------------------ MODULE MCUpgrade ------------------------------
(* The step-by-step upgrade (one change after the other, lists of added and  *)
(* removed parameters) against Upgraded; upgrading twice, and by way of an   *)
(* intermediate version.                                                     *)
EXTENDS Upgrade

CONSTANTS NS, MaxV, MaxCh
Kinds == {"+", "*", "-"}
Changes == UNION {[1 .. k -> NS \X Kinds] : k \in 0 .. MaxCh}
Logs == [1 .. MaxV + 1 -> Changes]
AsLog(f) == [i \in 1 .. MaxV + 1 |-> [v |-> i - 1, ch |-> f[i]]]

VARIABLES log, d, i, j, added, removed, pc
vars == <<log, d, i, j, added, removed, pc>>

\* the defaults of version v: what was added and not removed up to it, and "z" that was always there
DefAt(L, v) ==
  LET L1 == SubSeq(L, 1, v + 1)
      val(n) == LET T == Touches(L1, -1, n)
                    t == CHOOSE x \in T : \A y \in T : Later(x, y)
                IN  "default of " \o ToString(t)
  IN  [v |-> v, meta |-> "meta " \o ToString(v), log |-> L1,
       p |-> {<<"z", "z0">>} \cup {<<n, val(n)>> : n \in {m \in NS : Fate(L1, -1, m) = "default"}}]
D == DefAt(log, MaxV)

Init == /\ \E f \in Logs : log = AsLog(f)
        /\ \E cv \in -1 .. MaxV + 1, P \in SUBSET (NS \cup {"own", "z"}) :
             d = [ok |-> TRUE, v |-> cv, meta |-> "old", p |-> {<<n, "user">> : n \in P}]
        /\ i = 1 /\ j = 1 /\ added = {} /\ removed = {} /\ pc = "walk"

Walk == /\ pc = "walk" /\ i <= Len(log)
        /\ IF log[i].v <= d.v \/ j > Len(log[i].ch)
           THEN i' = i + 1 /\ j' = 1 /\ UNCHANGED <<added, removed>>
           ELSE LET c == log[i].ch[j] IN
                /\ j' = j + 1 /\ i' = i
                /\ IF c[2] = "-" THEN added' = added \ {c[1]} /\ removed' = removed \cup {c[1]}
                                 ELSE added' = added \cup {c[1]} /\ removed' = removed \ {c[1]}
        /\ UNCHANGED <<log, d, pc>>
Finish == /\ pc = "walk" /\ i > Len(log) /\ pc' = "done"
          /\ UNCHANGED <<log, d, i, j, added, removed>>
Next == Walk \/ Finish
Spec == Init /\ [][Next]_vars

Result == IF d.v >= D.v THEN d
          ELSE [d EXCEPT !.v = D.v, !.meta = D.meta,
                !.p = {x \in d.p : x[1] \notin added \cup removed} \cup {<<n, Value(D.p, n)>> : n \in added}]
Agrees == pc = "done" => Result = Upgraded(d, D)
Idempotent == pc = "done" => Upgraded(Upgraded(d, D), D) = Upgraded(d, D)
\* it does not matter which versions were installed in between
ByWay == pc = "done" => \A k \in 0 .. MaxV : Upgraded(Upgraded(d, DefAt(log, k)), D) = Upgraded(d, D)
OwnKept == pc = "done" => (\A x \in d.p : x[1] \in {"own", "z"} => x \in Upgraded(d, D).p)
NeverDown == pc = "done" => Upgraded(d, D).v >= d.v
=============================================================================
