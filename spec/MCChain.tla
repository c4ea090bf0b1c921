------------------------------- MODULE MCChain -------------------------------
(* All small inputs: the chain produces exactly the expected products.         *)
EXTENDS Chain

CONSTANTS MaxRecs, Spacing, Half, Gap, MinSurfs, Looks, Steps, Deltas, WithCancel

P0 == [spacing |-> Spacing, half |-> Half, gap |-> Gap, min |-> MinSurfs, looks |-> Looks]

VARIABLES rs, c, phase
vars == <<rs, c, phase>>

Init == rs = <<>> /\ c = Start /\ phase = "build"

Build ==
  /\ phase = "build" /\ Len(rs) < MaxRecs
  /\ \E dp \in Steps, dt \in Deltas, u \in BOOLEAN :
       LET p == IF rs = <<>> THEN 0 ELSE rs[Len(rs)].pos + (IF dt >= Gap THEN dp + Spacing ELSE dp)
           t == IF rs = <<>> THEN 0 ELSE rs[Len(rs)].t + dt
       IN rs' = Append(rs, [pos |-> p, t |-> t, use |-> u])
  /\ UNCHANGED <<c, phase>>
Go == phase = "build" /\ phase' = "run" /\ UNCHANGED <<rs, c>>
Step == phase = "run" /\ c.run /\ c' = Iterate(rs, c, P0) /\ UNCHANGED <<rs, phase>>
(* a cancellation request is seen at the top of an iteration, which still completes *)
Cancel ==
  /\ WithCancel /\ phase = "run" /\ c.run
  /\ c' = [Iterate(rs, c, P0) EXCEPT !.run = FALSE, !.status = IF @ = "ok" THEN "ok" ELSE IF @ = "insufficient" THEN @ ELSE "cancelled"]
  /\ UNCHANGED <<rs, phase>>
Next == Build \/ Go \/ Step \/ Cancel
Spec == Init /\ [][Next]_vars

(* the inputs the geometry of the model is made for: usable bursts of a segment advance by less than a spacing *)
Sane == \A g \in DOMAIN Segments(rs, P0) : LET s == Segments(rs, P0)[g] IN
          \A j \in 1 .. Len(s) - 1 : rs[s[j + 1]].pos - rs[s[j]].pos \in 0 .. Spacing
Ended == phase = "run" /\ ~c.run /\ Sane

Complete == Ended /\ c.status = "ok" => c.out = Expected(rs, P0)
Refused == Ended /\ c.status = "insufficient" => Insufficient(rs, P0)
NotRefused == Ended /\ Insufficient(rs, P0) => c.status \in {"insufficient", "cancelled"}
CancelPrefix == Ended /\ c.status = "cancelled" => IsPrefix(c.out, Expected(rs, P0))
Progress == phase = "run" => c.prog <= Len(rs) /\ (~c.run /\ c.status = "ok" => c.prog = Len(rs))
Counts == Ended /\ c.status = "ok" =>
            /\ \A j \in DOMAIN c.out : j > 1 => Counter(rs, P0, c.out[j - 1]) < Counter(rs, P0, c.out[j])
            /\ \A j \in DOMAIN c.out : Counter(rs, P0, c.out[j]) < c.cnt
(* every record of the product comes from one segment, in order of position within it *)
Isolated == Ended => \A j \in DOMAIN c.out : \A i \in ToSet(c.out[j].st) : i \in ToSet(Segments(rs, P0)[c.out[j].seg])
==============================================================================
