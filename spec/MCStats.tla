------------------------------- MODULE MCStats --------------------------------
(* The moments of small stacks: their order does not matter, nor does the unit *)
(* of power; mirroring the values turns the skewness around; the kurtosis is    *)
(* at least what the skewness demands.  The top of a curve between two looks is *)
(* above both, and the lower the wider the curve.                               *)
EXTENDS Stats, TLC
CONSTANTS Values, N
VARIABLE y
Init == y \in {s \in UNION {[1 .. n -> Values] : n \in 2 .. N} : Dev(s) > 0}
Spec == Init /\ [][UNCHANGED y]_y
Close(a, b, t) == a - b \in -t .. t
Tol(a) == 700 + AbsV(a) \div 10
Rev == [j \in DOMAIN y |-> y[Len(y) + 1 - j]]
Neg == [j \in DOMAIN y |-> 1000 - y[j]]
Half == [j \in DOMAIN y |-> y[j] \div 2]
Order == Skewness(Rev) = Skewness(y) /\ Kurtosis(Rev) = Kurtosis(y)
Mirror == Close(Skewness(Neg), -Skewness(y), Tol(Skewness(y))) /\ Close(Kurtosis(Neg), Kurtosis(y), Tol(Kurtosis(y)))
Unit == Close(Skewness(Half), Skewness(y), Tol(Skewness(y))) /\ Close(Kurtosis(Half), Kurtosis(y), Tol(Kurtosis(y)))
Pearson == Kurtosis(y) + 30000 + Tol(30000) >= 10000 + (Skewness(y) \div 100) * (Skewness(y) \div 100)
Tops == \A b \in {0, 250, 500, 1000, 1500}, w \in {1500, 3000, 9000} :
          LET t == Top([b |-> b, w |-> w], 4)
          IN /\ t >= 10000 /\ (b % 1000 = 0 => t = 10000)
             /\ Top([b |-> b, w |-> 2 * w], 4) <= t
Middle == \A n \in {1, 3, 124, 248, 249, 250, 400}, at \in {1, 2, 124, 125, 126, 249, 276, 399, 400} :
            at <= n => LET a == First(at)  z == Final(at, n)
                       IN /\ 1 <= a /\ a <= at /\ at <= z /\ z <= n /\ z - a <= 248
                          /\ (n <= 125 => a = 1 /\ z = n) /\ (at - a < Side => a = 1) /\ (z - at < Side => z = n)
===============================================================================
