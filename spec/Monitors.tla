------------------------------ MODULE Monitors ------------------------------
(* Progress monitors: a tree of monitors below one root.  A monitor is       *)
(*   [par, share, total, label, on]   par = 0: the root                      *)
(* share: the part of the parent's work it stands for, total: what its own   *)
(* task announced (None: unknown).  All amounts are in 1/S of a unit.        *)
(* What a task reports to its monitor reaches the root scaled by the shares, *)
(* with the labels of the monitors on the way in front of the message.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 64
None == -1                      \* no amount
NoMsg == "~"
Mon(par, share) == [par |-> par, share |-> share, total |-> None, label |-> NoMsg]

Scaled(m, work) == IF work = None \/ m.total \in {None, 0} THEN None ELSE (m.share * work) \div m.total
Prefixed(m, msg) == IF msg = NoMsg THEN NoMsg ELSE m.label \o ": " \o msg

\* what arrives at the root when monitor i of ms reports <<work, msg>>
RECURSIVE Arrives(_, _, _, _)
Arrives(ms, i, work, msg) ==
  IF ms[i].par = 0 THEN <<work, msg>>
  ELSE Arrives(ms, ms[i].par, Scaled(ms[i], work), Prefixed(ms[i], msg))

\* a child's start and end are announced to its parent as progress without work
Announce(ms, i) == LET m == ms[i]
                   IN  Arrives(ms, m.par, IF m.total = None THEN None ELSE 0, m.label)

(* the root as a console: which lines it shows *)
\* round to nearest; at exactly half either neighbour is fine
Pcts(worked, total) ==
  LET q == (100 * worked) \div total
      r == (100 * worked) % total
  IN  IF 2 * r < total THEN {q} ELSE IF 2 * r > total THEN {q + 1} ELSE {q, q + 1}
=============================================================================
