----------------------------- MODULE MCMonitors -----------------------------
(* Monitors explored with small trees: whatever the nesting, the root is     *)
(* told exactly the share of a task that did all its work, and never more.   *)
EXTENDS Monitors
CONSTANTS MaxMon, Works, Shares
VARIABLES ms, did, sum, ops
\* did[i]: work reported to i so far; sum[i]: what arrived at the root through i
vars == <<ms, did, sum, ops>>
Init == ms = <<[Mon(0, 0) EXCEPT !.total = 8 * S, !.label = "r"]>> /\ did = <<0>> /\ sum = <<0>> /\ ops = 0
RECURSIVE Anc(_)
Anc(i) == IF i = 0 THEN {} ELSE {i} \cup Anc(ms[i].par)
\* a child that has started; its share comes out of its parent's remaining work
NewChild(p, sh, tot) ==
  /\ Len(ms) < MaxMon /\ did[p] + sh <= ms[p].total
  /\ ms' = Append(ms, [Mon(p, sh) EXCEPT !.total = tot, !.label = "c"])
  /\ did' = Append([did EXCEPT ![p] = @ + sh], 0)
  /\ sum' = Append(sum, 0) /\ ops' = ops + 1
Report(i, w) ==
  /\ did[i] + w <= ms[i].total
  /\ LET a == Arrives(ms, i, w, NoMsg)
     IN sum' = [j \in DOMAIN sum |-> IF j \in Anc(i) THEN sum[j] + a[1] ELSE sum[j]]
  /\ did' = [did EXCEPT ![i] = @ + w] /\ ops' = ops + 1 /\ UNCHANGED ms
Next == \/ \E p \in DOMAIN ms, sh \in Shares, t \in Shares : NewChild(p, sh, t)
        \/ \E i \in DOMAIN ms, w \in Works : Report(i, w)
Spec == Init /\ [][Next]_vars
\* in the unit of the root
Factor(i, x) == Arrives(ms, i, x, NoMsg)[1]
Leaf(i) == \A j \in DOMAIN ms : ms[j].par # i
NeverMore == sum[1] <= ms[1].total /\ \A i \in DOMAIN ms \ {1} : sum[i] <= Factor(ms[i].par, ms[i].share)
Complete == \A i \in DOMAIN ms \ {1} : (Leaf(i) /\ did[i] = ms[i].total) => sum[i] = Factor(ms[i].par, ms[i].share)
Bounded == ops <= 7
=============================================================================
