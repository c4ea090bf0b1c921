------------------------------- MODULE MCWindow -------------------------------
(* The azimuth windows for all widths whose values are exact: symmetric, no    *)
(* weight outside of the window or above one, and each shape is its own:       *)
(* Hann goes down to zero at the ends, Hamming to 0.08.                        *)
EXTENDS Looks
VARIABLE w
Shapes == {"none", "boxcar", "hamming", "hanning"}
Widths == {2, 3, 4, 5, 7, 9, 13, 25}
Init == w \in [shape : Shapes, width : Widths, pulses : 1 .. 32] /\ w.width <= w.pulses
Spec == Init /\ [][UNCHANGED w]_w
Tp(p) == Taper(w, w.pulses, p)
Begin == (w.pulses \div 2) - (w.width \div 2)
Bounded == \A p \in 0 .. w.pulses - 1 : Tp(p) \in 0 .. 10000
Symmetric == w.shape # "none" => \A i \in 0 .. w.width - 1 : Tp(Begin + i) - Tp(Begin + w.width - 1 - i) \in -1 .. 1
Inside == Begin >= 0 /\ Begin + w.width <= w.pulses
Ends == /\ w.shape = "hanning" => Tp(Begin) = 0
        /\ w.shape = "hamming" => Tp(Begin) = 800
        /\ (w.shape \in {"hamming", "hanning"} /\ w.width % 2 = 1 => Tp(Begin + (w.width \div 2)) = 10000)
        /\ (w.shape \in {"none", "boxcar"} => Tp(Begin) = 10000)
===============================================================================
