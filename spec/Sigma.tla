-------------------------------- MODULE Sigma --------------------------------
(* The sigma0 scaling factor of a surface: the power (dB) at the end of the    *)
(* receiver of the echo of a surface whose backscattering coefficient is 0 dB  *)
(* - the radar equation.  All quantities are logarithms, in units of 1e-5      *)
(* decades, so that 10 lg x is in units of 1e-4 dB.                            *)
(*   k : [pt, gain, ratio, lam, np, c, ptr, re]: transmitted power, antenna    *)
(*       gain and loss on the way (both in 1e-4 dB), wave length, pulses of a  *)
(*       burst, speed of light, width of the point target response, radius of  *)
(*       the earth                                                             *)
(*   a look : [r, s, pri, v]: distance to the surface, sum of it and the       *)
(*       radius of the earth, pulse repetition interval, velocity              *)
(*   agc : gain control at the burst closest to the surface (1e-4 dB)          *)
EXTENDS Integers, Sequences
Lg2 == 30103
LgPi == 49715
Lg886 == -5257                                   \* of .886, the width of a beam between its half power points
(* extent of the area seen by a look across and along the track *)
Along(k, l) == l.s - k.re + k.lam + l.r - l.pri - Lg2 - l.v - k.np
Across(k, l) == Lg2 + (k.c + l.r + k.ptr + k.re - l.s) \div 2
Area(k, l) == Lg886 + Along(k, l) + Across(k, l)
Offset(k) == 6 * Lg2 + 3 * LgPi - k.pt - 2 * k.gain - 2 * k.lam + k.ratio + k.np
Factor(k, l, agc) == Area(k, l) + agc - Offset(k) - 4 * l.r

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Mean(s) == IF s = <<>> THEN 0 ELSE Total(s) \div Len(s)
Factors(k, ls, agc) == [j \in DOMAIN ls |-> Factor(k, ls[j], agc)]
SurfaceFactor(k, ls, agc) == Mean(Factors(k, ls, agc))
==============================================================================
