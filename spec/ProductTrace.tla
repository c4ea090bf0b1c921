----------------------------- MODULE ProductTrace -----------------------------
(* Validates products written by the real writers.  A case                     *)
(*   [kind, recs, obs, n, err]: records given to a writer of this kind in      *)
(*   order, of each ok: whether its lists fit into the product; what was said  *)
(*   about each (err[i]); obs: of each variable of the product, of each        *)
(*   record in the file, the values; n: number of records in the file;         *)
(*   units: of each variable; flags: values and number of meanings             *)
EXTENDS Product, Json, TLC

Cases == JsonDeserialize("cases.json")
VARIABLES c, verdict
vars == <<c, verdict>>

Case == Cases[c]
Written == SelectSeq([i \in DOMAIN Case.recs |-> i], LAMBDA i : Case.recs[i].ok)
Text(a) == IF a = Nan THEN "missing" ELSE ToString(a)
Wrong(v, i) ==
  LET e == Quantity(Case.recs[Written[i]].q, v.s)
      a == Case.obs[v.n][i]
  IN {x \in DOMAIN a : ~ReadsAs(v, At(e, x), a[x])}
(* the echoes of a stack: to within a quantum, which is a 127th of the largest *)
Largest(q) == IF \E x \in DOMAIN q : q[x] = Nan THEN Nan
              ELSE LET S == {Abs2(q[x]) : x \in DOMAIN q} IN CHOOSE a \in S : \A b \in S : Leq(b, a)
WrongIQ(i) ==
  LET r == Case.recs[Written[i]].q
      top == Over(Largest(r.si \o r.sq), 126)
      Off2(e, a) == ~(a # Nan /\ Leq(Abs2(Sub(a, e)), Add(top, Small(2))))
  IN {x \in DOMAIN r.si : Off2(r.si[x], Case.obs["stack_i"][i][x]) \/ Off2(r.sq[x], Case.obs["stack_q"][i][x])}
     \cup {x \in DOMAIN Case.obs["stack_i"][i] : x > Len(r.si) /\ (Case.obs["stack_i"][i][x] # Nan \/ Case.obs["stack_q"][i][x] # Nan)}

Verdict ==
  LET refused == {i \in DOMAIN Case.recs : Case.err[i] # "ok"}
      vs == {v \in Table(Case.kind) : v.n \notin DOMAIN Case.obs}
      odd == {v \in Table(Case.kind) : Unit(v.s) # "" /\ v.n \in DOMAIN Case.units /\ Case.units[v.n] # Unit(v.s)}
      bad == {p \in Table(Case.kind) \X DOMAIN Written : Len(Case.obs[p[1].n]) < p[2] \/ Wrong(p[1], p[2]) # {}}
  IN IF Case.fatal # "" THEN "product: " \o Case.fatal
     ELSE IF \E i \in refused : Case.recs[i].ok THEN
            LET i == CHOOSE i \in refused : Case.recs[i].ok IN "record " \o ToString(i) \o " cannot be written: " \o Case.err[i]
     ELSE IF \E i \in DOMAIN Case.recs : ~Case.recs[i].ok /\ i \notin refused THEN "record that does not fit is not refused"
     ELSE IF Case.n # Len(Written) /\ ~(refused # {} /\ Case.n = Len(Written) + 1) THEN ToString(Case.n) \o " records, expected " \o ToString(Len(Written))
     ELSE IF vs # {} THEN "no variable " \o (CHOOSE v \in vs : TRUE).n
     ELSE IF odd # {} THEN LET v == CHOOSE v \in odd : TRUE IN v.n \o " is in " \o Case.units[v.n] \o ", not " \o Unit(v.s)
     ELSE IF \E f \in DOMAIN Case.flags : ~FlagsFit(Case.flags[f].values, Case.flags[f].meanings) THEN "values and meanings of flag "
       \o (CHOOSE f \in DOMAIN Case.flags : ~FlagsFit(Case.flags[f].values, Case.flags[f].meanings))
     ELSE IF bad # {} THEN
       LET p == CHOOSE p \in bad : TRUE
           e == Quantity(Case.recs[Written[p[2]]].q, p[1].s)
           x == CHOOSE x \in Wrong(p[1], p[2]) : TRUE
       IN p[1].n \o " of record " \o ToString(p[2]) \o " element " \o ToString(x) \o " reads " \o Text(Case.obs[p[1].n][p[2]][x])
          \o ", it was " \o Text(At(e, x))
     ELSE IF Case.kind = "l1bs" /\ \E i \in DOMAIN Written : WrongIQ(i) # {} THEN
       LET i == CHOOSE i \in DOMAIN Written : WrongIQ(i) # {}  x == CHOOSE x \in WrongIQ(i) : TRUE
       IN "echo of record " \o ToString(i) \o " element " \o ToString(x)
     ELSE "ok"

Init == c \in DOMAIN Cases /\ verdict = "run"
Step == /\ verdict = "run"
        /\ verdict' = Verdict
        /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
        /\ UNCHANGED c
Spec == Init /\ [][Step]_vars
==============================================================================
