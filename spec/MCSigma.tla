------------------------------- MODULE MCSigma --------------------------------
(* The radar equation as a user knows it, for combinations of looks: a stronger *)
(* transmitter, antenna or gain raises the echo by as much (the antenna twice), *)
(* a loss lowers it; the power falls with the fourth power of the distance, of  *)
(* which an area growing with the distance gives back at most two; a surface    *)
(* has a factor between those of its looks, and of equal looks that of any.     *)
EXTENDS Sigma, FiniteSets
VARIABLE x
Look == [r : {591000, 592000, 595000}, s : {685700, 685800}, pri : {-426000, -425000}, v : {387000, 387500}]
K == [pt : {0, 70000}, gain : {0, 400000}, ratio : {-5000, 0}, lam : {-165500, -100000}, np : {180618}, c : {847682}, ptr : {-850000}, re : {680400}]
Init == x \in [k : K, ls : UNION {[1 .. n -> Look] : n \in 1 .. 2}, agc : {0, 123456}]
Spec == Init /\ [][UNCHANGED x]_x
F(k, l) == Factor(k, l, x.agc)
Gains == /\ F([x.k EXCEPT !.pt = @ + 1000], x.ls[1]) = F(x.k, x.ls[1]) + 1000
         /\ F([x.k EXCEPT !.gain = @ + 1000], x.ls[1]) = F(x.k, x.ls[1]) + 2000
         /\ F([x.k EXCEPT !.ratio = @ + 1000], x.ls[1]) = F(x.k, x.ls[1]) - 1000
         /\ Factor(x.k, x.ls[1], x.agc + 777) = F(x.k, x.ls[1]) + 777
Distance == LET d == F(x.k, [x.ls[1] EXCEPT !.r = @ + 1000, !.s = @ + 115]) - F(x.k, x.ls[1]) IN d \in -3000 .. -2000
Looks1 == /\ F(x.k, [x.ls[1] EXCEPT !.v = @ + 1000]) = F(x.k, x.ls[1]) - 1000
          /\ F(x.k, [x.ls[1] EXCEPT !.pri = @ + 1000]) = F(x.k, x.ls[1]) - 1000
          /\ F([x.k EXCEPT !.np = @ + 1000], x.ls[1]) = F(x.k, x.ls[1]) - 2000
Between == LET fs == {F(x.k, x.ls[j]) : j \in DOMAIN x.ls}
           IN /\ \E f \in fs : f <= SurfaceFactor(x.k, x.ls, x.agc)
              /\ \E f \in fs : f >= SurfaceFactor(x.k, x.ls, x.agc)
              /\ (Cardinality(fs) = 1 => SurfaceFactor(x.k, x.ls, x.agc) \in fs)
===============================================================================
