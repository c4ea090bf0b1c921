------------------------------- MODULE Upgrade -------------------------------
(* Versions of the configuration files.  A file is a document                *)
(*   [ok, v, meta, p]   ok: readable; v: version, -1 if it predates versions *)
(*                      meta: its metainf block; p: set of <<name, value>>   *)
(* The default file of the installed version also has a change log, the      *)
(* sequence of [v, ch], ch a sequence of <<name, kind>> with kind            *)
(* "+" (added), "*" (changed meaning), "-" (removed).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Names(P) == {x[1] : x \in P}
Value(P, n) == (CHOOSE x \in P : x[1] = n)[2]

\* positions of the changes to n after version v
Touches(log, v, n) ==
  {ij \in {<<i, j>> : i \in DOMAIN log, j \in 1 .. 12} :
     log[ij[1]].v > v /\ ij[2] <= Len(log[ij[1]].ch) /\ log[ij[1]].ch[ij[2]][1] = n}
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
\* what finally happened to n after version v
Fate(log, v, n) ==
  LET T == Touches(log, v, n) IN
  IF T = {} THEN "same"
  ELSE LET t == CHOOSE x \in T : \A y \in T : Later(x, y)
       IN  IF log[t[1]].ch[t[2]][2] = "-" THEN "gone" ELSE "default"

Changed(log, v) == UNION {{log[i].ch[j][1] : j \in DOMAIN log[i].ch} : i \in {k \in DOMAIN log : log[k].v > v}}

\* the settings of the user stay, except those the new version defines anew or has no use for
Upgraded(d, D) ==
  IF d.v >= D.v THEN d
  ELSE [d EXCEPT !.v = D.v, !.meta = D.meta,
        !.p = {x \in d.p : Fate(D.log, d.v, x[1]) = "same"}
              \cup {<<n, Value(D.p, n)>> : n \in {m \in Changed(D.log, d.v) : Fate(D.log, d.v, m) = "default"}}]
NeedsUpgrade(d, D) == D.v > d.v
=============================================================================
