-------------------------------- MODULE MCAux --------------------------------
(* Values are remembered once converted.  Objects come and go, their places  *)
(* in memory are used again; what an object answers is always its own value. *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Places, Attrs, Vals, MaxNew
VARIABLES live,      \* objects: [id, at, data]
          cache,     \* attribute -> set of <<id, value>>: keyed by the object, which keeps it from going away
          made, said \* last answer: <<expected, given>>
vars == <<live, cache, made, said>>
Init == live = {} /\ cache = [a \in Attrs |-> {}] /\ made = 0 /\ said = <<"", "">>

Held(o) == \E a \in Attrs : \E x \in cache[a] : x[1] = o.id
Load == /\ made < MaxNew
        /\ \E p \in Places : ~(\E o \in live : o.at = p)
           /\ \E d \in [Attrs -> Vals] : live' = live \cup {[id |-> made + 1, at |-> p, data |-> d, used |-> TRUE]}
        /\ made' = made + 1 /\ UNCHANGED <<cache, said>>
Drop == \E o \in live : o.used /\ live' = (live \ {o}) \cup (IF Held(o) THEN {[o EXCEPT !.used = FALSE]} ELSE {}) /\ UNCHANGED <<cache, made, said>>
Read == \E o \in live, a \in Attrs :
          /\ o.used
          /\ LET hit == {x \in cache[a] : x[1] = o.id}
                 v == IF hit = {} THEN o.data[a] ELSE (CHOOSE x \in hit : TRUE)[2]
             IN  /\ said' = <<o.data[a], v>>
                 /\ cache' = [cache EXCEPT ![a] = @ \cup {<<o.id, v>>}]
          /\ UNCHANGED <<live, made>>
Next == Load \/ Drop \/ Read
Spec == Init /\ [][Next]_vars
OwnValue == said[1] = said[2]
=============================================================================
