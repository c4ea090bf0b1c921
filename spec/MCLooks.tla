------------------------------- MODULE MCLooks -------------------------------
(* The definitions of Looks against the steps of the chain, for all small      *)
(* stacks: masks built as index ranges and combined, trailing zeros found by   *)
(* searching backwards, sums accumulated look by look.                         *)
EXTENDS Looks

CONSTANTS N, Zp, MaxLooks, MaxShift, Dists, Powers
Shifts == -MaxShift .. MaxShift

VARIABLES c, ls, acc, cnt, j, done
vars == <<c, ls, acc, cnt, j, done>>

Opt == [mask : BOOLEAN, angle : BOOLEAN, avoid : BOOLEAN]
Case(o) == [K |-> [n |-> N, zp |-> Zp], O |-> [mask |-> o.mask, angle |-> o.angle, avoid |-> o.avoid, amin |-> -1, amax |-> 1]]
NB == N * Zp
K0 == 0 .. NB - 1

(* the mask of one look as the chain builds it *)
Geom(sh) == LET s == IF sh > 0 THEN sh * Zp ELSE 0
                e == IF sh > 0 THEN NB ELSE (N - Abs(sh)) * Zp
            IN [k \in K0 |-> IF s < e /\ k >= s /\ k < e THEN 1 ELSE 0]
Angle(d) == IF ~c.O.angle THEN 1 ELSE IF c.O.amin < d /\ d < c.O.amax THEN 1 ELSE 0
Row(l) == IF c.O.mask THEN [k \in K0 |-> Geom(l.sh)[k] * Angle(l.d)] ELSE [k \in K0 |-> 1]
RECURSIVE Back(_, _)
Back(r, i) == IF i = NB THEN 0 ELSE IF r[NB - 1 - i] = 1 THEN NB - i ELSE Back(r, i + 1)
Vec(l) == IF Row(l)[NB - 1] = 1 THEN NB - 1 ELSE Back(Row(l), 0)

Init == /\ \E o \in Opt : c = Case(o)
        /\ ls = <<>> /\ acc = [k \in K0 |-> 0] /\ cnt = [k \in K0 |-> 0] /\ j = 0 /\ done = FALSE
Add == /\ ~done /\ j = 0 /\ Len(ls) < MaxLooks
       /\ \E d \in Dists, sh \in Shifts, p \in Powers : ls' = Append(ls, [d |-> d, sh |-> sh, p |-> p])
       /\ UNCHANGED <<c, acc, cnt, j, done>>
Acc == /\ ~done /\ j < Len(ls)
       /\ j' = j + 1
       /\ LET l == ls[j + 1]
              m == Row(l)
          IN IF Vec(l) = 0 THEN UNCHANGED <<acc, cnt>>
             ELSE /\ acc' = [k \in K0 |-> acc[k] + l.p * m[k]]
                  /\ cnt' = [k \in K0 |-> cnt[k] + (IF c.O.avoid THEN m[k] ELSE 1)]
       /\ done' = (j + 1 = Len(ls))
       /\ UNCHANGED <<c, ls>>
Next == Add \/ Acc
Spec == Init /\ [][Next]_vars

Masks == \A i \in DOMAIN ls : /\ \A k \in K0 : (Row(ls[i])[k] = 1) = KeptBin(c, ls[i].d, ls[i].sh, k)
                              /\ Vec(ls[i]) = MaskEnd(c, ls[i].d, ls[i].sh)
                              /\ (Vec(ls[i]) # 0) = UsedLook(c, ls[i].d, ls[i].sh)
Average == done => \A k \in K0 : (IF cnt[k] = 0 THEN 0 ELSE acc[k] \div cnt[k]) = Wave(c, ls, k)
(* no look that is masked matters; the average lies between the looks that are in it *)
Bounded == done => \A k \in K0 : LET S == InBin(c, ls, k) IN
             S # {} => /\ Wave(c, ls, k) <= Max({ls[i].p : i \in S})
                       /\ c.O.avoid => Wave(c, ls, k) >= Min({ls[i].p : i \in S})
Neutral == done => \A i \in DOMAIN ls : i \notin UsedSet(c, ls) =>
             \A k \in K0 : Wave(c, ls, k) = Wave(c, SubSeq(ls, 1, i - 1) \o SubSeq(ls, i + 1, Len(ls)), k)
==============================================================================
