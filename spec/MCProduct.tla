------------------------------- MODULE MCProduct -------------------------------
(* A writer step by step: each value is packed into a small integer type (with *)
(* scale and offset), values the type cannot hold are masked, masked values    *)
(* and everything not written hold the fill value; a record that does not fit  *)
(* is refused.  Reading gives each record its own values within a quantum.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lo, Hi, D, O, Top, Width, Recs, Masks       \* packed Lo .. Hi, Hi is the fill value; masks: values that do not fit are masked

Values == (-Top) .. Top
Lists == UNION {[1 .. k -> Values] : k \in 0 .. Width + 1}
Fits(q) == Len(q) <= Width

VARIABLES file, given, refused
vars == <<file, given, refused>>

Wrap(p) == Lo + ((p - Lo) % (Hi - Lo + 1))
Nearest(x) == (2 * (x - O) + D) \div (2 * D)          \* packed value of x
Pack(x) == LET p == Nearest(x) IN IF p \in Lo .. Hi THEN p ELSE IF Masks THEN Hi ELSE Wrap(p)
Row(q) == [i \in 1 .. Width |-> IF i <= Len(q) THEN Pack(q[i]) ELSE Hi]

Init == file = <<>> /\ given = <<>> /\ refused = 0
Write(q) == /\ Len(given) < Recs
            /\ IF Fits(q) THEN /\ file' = Append(file, Row(q)) /\ given' = Append(given, q) /\ UNCHANGED refused
               ELSE refused = 0 /\ refused' = 1 /\ UNCHANGED <<file, given>>
Next == \E q \in Lists : Write(q)
Spec == Init /\ [][Next]_vars

(* what a reader makes of a packed value: <<>> is missing *)
Unpack(p) == IF p = Hi THEN <<>> ELSE <<O + D * p>>
Holds(x) == x \in (O + D * Lo) .. (O + D * (Hi - 1))
Own == \A r \in DOMAIN given : \A i \in 1 .. Width :
         LET a == Unpack(file[r][i]) IN
         IF i > Len(given[r]) THEN a = <<>>
         ELSE LET x == given[r][i] IN
              /\ a # <<>> => a[1] - x <= D /\ x - a[1] <= D
              /\ Holds(x) => a # <<>>
              /\ (x < O + D * Lo - D \/ x > O + D * Hi) => a = <<>>
Complete == Len(file) = Len(given)
================================================================================
