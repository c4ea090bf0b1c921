------------------------------- MODULE MCCrash -------------------------------
(* The operations as sequences of file system calls, in any order the calls  *)
(* allow, interrupted anywhere; the next operation then starts from what was *)
(* left behind.                                                              *)
EXTENDS Crash

CONSTANTS Ws, Cf, MaxOps
K == [names |-> <<>>, s3 |-> [f \in TplFiles |-> "s3 " \o f], cryosat |-> [f \in TplFiles |-> "cs " \o f]]
Op(n, a) == [op |-> n, a |-> a]
Keys == {"CHD", "CNF"}
Ops == {Op("create_ws", <<w>>) : w \in Ws} \cup {Op("delete_ws", <<w>>) : w \in Ws} \cup {Op("set_cur", <<w>>) : w \in Ws}
  \cup {Op(n, <<w, v>>) : n \in {"copy_ws", "rename_ws"}, w \in Ws, v \in Ws}
  \cup {Op("create_cfg", <<w, c, "s3">>) : w \in Ws, c \in Cf} \cup {Op("delete_cfg", <<w, c>>) : w \in Ws, c \in Cf}
  \cup {Op(n, <<w, c, d>>) : n \in {"copy_cfg", "rename_cfg"}, w \in Ws, c \in Cf, d \in Cf}
  \cup {Op("set_cur_cfg", <<w, c>>) : w \in Ws, c \in Cf}
Adds == {Op("add_inputs", <<w, <<<<"f.nc", "d1">>>>>>) : w \in Ws}
Removes == {Op("remove_inputs", <<w, <<"f.nc">>>>) : w \in Ws}
Saves == {Op("save", <<w, c, <<<<k, "new " \o k>>>>>>) : w \in Ws, c \in Cf, k \in Keys}

VARIABLES st, busy, before, goal, o, n
vars == <<st, busy, before, goal, o, n>>
Idle == Op("none", <<>>)
Init == st = {} /\ busy = FALSE /\ before = {} /\ goal = {} /\ o = Idle /\ n = 0

\* the work file of a save; one that a killed save left behind is used again
WorkFile(x) == LET p == CfgFile(x.a[1], x.a[2], x.a[3][1][1]) IN Append(Parent(p), p[4] \o ".tmp")
Without(S, x) == IF x.op \in Saving THEN {e \in S : e[1] # WorkFile(x)} ELSE S
Start(x) == LET r == ApplyX(st, x, K) IN
            /\ r.res = "ok" /\ r.st # st
            /\ busy' = TRUE /\ before' = Without(st, x) /\ goal' = Without(r.st, x) /\ o' = x
            /\ n' = n + 1 /\ UNCHANGED <<st>>
Begin == /\ ~busy /\ n < MaxOps
         /\ (\E x \in Ops : Start(x)) \/ (\E x \in Adds : Start(x)) \/ (\E x \in Removes : Start(x)) \/ (\E x \in Saves : Start(x))

NoKids(S, p) == Kids(S, p) = {}
Partial(p) == IF p[Len(p)] = ".current" THEN "=" ELSE "partial"
Call ==
  /\ busy /\ st # goal
  /\ \/ o.op \in {"rename_ws", "rename_cfg"} /\ st' = goal
     \/ o.op \in Deleting /\ \E e \in st \ goal : NoKids(st, e[1]) /\ st' = st \ {e}
     \/ o.op \in Saving /\ LET t == WorkFile(o)
                               new == o.a[3][1][2]
                           IN  \/ st' = Write(st, t, "partial")
                               \/ IsFile(st, t) /\ st' = Write(st, t, new)
                               \/ IsFile(st, t) /\ Content(st, t) = new
                                  /\ st' = {e \in Write(st, CfgFile(o.a[1], o.a[2], o.a[3][1][1]), new) : e[1] # t}
     \/ o.op \notin Saving \cup Deleting \cup {"rename_ws", "rename_cfg"}
        /\ \E e \in goal \ st :
             /\ e[1] = <<>> \/ IsDir(st, Parent(e[1]))
             /\ \/ e[2] = DIR /\ st' = st \cup {e}
                \/ e[2] # DIR /\ st' = Write(st, e[1], Partial(e[1]))
                \/ e[2] # DIR /\ IsFile(st, e[1]) /\ Content(st, e[1]) = Partial(e[1]) /\ st' = Write(st, e[1], e[2])
  /\ UNCHANGED <<busy, before, goal, o, n>>
Finish == busy /\ st = goal /\ busy' = FALSE /\ o' = Idle /\ before' = {} /\ goal' = {} /\ UNCHANGED <<st, n>>
Killed == busy /\ busy' = FALSE /\ o' = Idle /\ before' = {} /\ goal' = {} /\ UNCHANGED <<st, n>>
Next == Begin \/ Call \/ Finish \/ Killed
Spec == Init /\ [][Next]_vars

Interrupted == busy => Meanwhile(before, goal, o, st, TRUE)
\* a work file left behind by a killed save goes with the next one; a tree stays a tree
WellFormed == \A e \in st : e[1] = <<>> \/ IsDir(st, Parent(e[1]))
Unique == \A e, f \in st : e[1] = f[1] => e = f
\* the store can always be brought back: deleting works from whatever was left
Recoverable == ~busy => \A w \in WsNames(st) : LET r == DeleteWs(st, w) IN r.res = "ok" /\ ~Has(r.st, <<w>>)
=============================================================================
