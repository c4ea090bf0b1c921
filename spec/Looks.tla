-------------------------------- MODULE Looks --------------------------------
(* From a stack of looks to the waveform of a record: range alignment, masks,   *)
(* antenna weights and multilooking.  Distances along the track in units,       *)
(* delays in thousandths of a range sample.                                     *)
(*                                                                              *)
(* A case c (see ChainTrace) has, besides the records c.rs,                     *)
(*   c.K = [n, zp, kq, kd, kp]: samples, zero padding, curvature, Doppler and   *)
(*         pitch constants of the geometry                                      *)
(*   c.O = [dop, slant, mask, angle, amin, amax, avoid, aw]: the options        *)
(*   c.W = [u0, du, w]: antenna weights (thousandths) at u0, u0 + du, ...       *)
(* and each record b has its window delay b.w                                   *)
EXTENDS Chain

Bins(c) == c.K.n * c.K.zp

(* what the calibration makes of the amplitude of burst b *)
Gain(c, b) == (IF c.cal1 THEN b.c1 ELSE b.g) * (IF c.cal2 THEN b.c2[c.idx + 1] ELSE 1)
Amp(c, b) == b.a * Gain(c, b)
Phase(c, b) == IF c.cal1 THEN b.ph ELSE 0

------------------------------------------------------------------------------
(* the azimuth window: how much (in ten-thousandths) each of the pulses 0 .. pulses - 1 of a burst contributes to its beams.  *)
(* It lies in the middle of the burst and is as wide as configured; c.T = [shape, width]                                      *)
Cosine(i, m) ==                    \* of i m-th of a circle, m divides 24
  LET quarter == <<10000, 9659, 8660, 7071, 5000, 2588, 0>>
      k == (i * (24 \div m)) % 24
      h == IF k > 12 THEN 24 - k ELSE k
  IN IF h <= 6 THEN quarter[h + 1] ELSE -quarter[13 - h]
Taper(t, pulses, p) ==
  LET i == p - ((pulses \div 2) - (t.width \div 2))
  IN IF t.shape = "none" THEN 10000
     ELSE IF i < 0 \/ i >= t.width THEN 0
     ELSE CASE t.shape = "boxcar" -> 10000
            [] t.shape = "hamming" -> (540000 - 46 * Cosine(i, t.width - 1)) \div 100
            [] t.shape = "hanning" -> (500000 - 50 * Cosine(i, t.width - 1)) \div 100

------------------------------------------------------------------------------
(* range alignment *)
(* window delay of a burst: to its range belongs the distance of antenna and centre of gravity (mm) *)
Win(c, b) == b.w + (b.cog * c.K.kc) \div 1000
(* additional delay of a point d units away from nadir *)
Curve(c, d) == (((d * d) \div 100) * c.K.kq) \div 10000
(* between two bursts a surface lies on the chord: that much below the arc *)
Sag(c, e, seg) ==
  IF e.k = 0 THEN 0
  ELSE LET j == Bracket(c.rs, seg, e.pos)
       IN ((((e.pos - c.rs[seg[j - 1]].pos) * (c.rs[seg[j]].pos - e.pos)) \div 100) * c.K.ks) \div 10000
(* window delay at the overflight: interpolated between the bursts around the surface (the satellite is on its chord, too) *)
SurfWin(c, e, seg) ==
  IF e.k = 0 THEN Win(c, c.rs[seg[1]])
  ELSE LET j == Bracket(c.rs, seg, e.pos)
           p == c.rs[seg[j - 1]]
           q == c.rs[seg[j]]
       IN Win(c, p) + ((e.pos - p.pos) * (Win(c, q) - Win(c, p))) \div (q.pos - p.pos) - (Sag(c, e, seg) * c.K.kh) \div 1000
(* where the echo of the surface lies in the window of burst b, relative to where it lies at the overflight *)
Echo(c, b, d, ws, sag) == (IF c.O.slant THEN Curve(c, d) + sag + (sag * c.K.kh) \div 1000 ELSE 0) + ws - Win(c, b) + (IF c.O.dop THEN (d * c.K.kd) \div 1000 ELSE 0)
(* the look is moved back by that *)
Shift(c, b, d, ws, sag) == - Echo(c, b, d, ws, sag)
Round(x) == (x + 500) \div 1000

------------------------------------------------------------------------------
(* masks *)
(* moving a look by whole samples wraps samples around the end of the window: they are masked *)
Kept1(c, sh, k) == LET s == k - sh * c.K.zp IN s >= 0 /\ s < Bins(c)       \* k = 0 .. Bins - 1
InAngle(c, d) == ~c.O.angle \/ (c.O.amin < d /\ d < c.O.amax)
KeptBin(c, d, sh, k) == ~c.O.mask \/ (InAngle(c, d) /\ Kept1(c, sh, k))
UsedLook(c, d, sh) == ~c.O.mask \/ (InAngle(c, d) /\ Abs(sh) < c.K.n)
(* one behind the last bin that is kept; the last index of the window if nothing is cut off; 0 if nothing is left *)
MaskEnd(c, d, sh) ==
  IF ~UsedLook(c, d, sh) THEN 0
  ELSE IF ~c.O.mask \/ sh >= 0 THEN Bins(c) - 1 ELSE Bins(c) + sh * c.K.zp

------------------------------------------------------------------------------
(* antenna weight at an angle given in tenths of units: linear between the entries, constant outside of the table *)
Weight(c, u) ==
  LET t == c.W
      n == Len(t.w)
      i == (u - 10 * t.u0) \div (10 * t.du)
  IN IF u <= 10 * t.u0 THEN t.w[1]
     ELSE IF i >= n - 1 THEN t.w[n]
     ELSE t.w[i + 1] + ((t.w[i + 2] - t.w[i + 1]) * (u - 10 * t.u0 - i * 10 * t.du)) \div (10 * t.du)
LookWeight(c, b, d) == IF c.O.aw THEN Weight(c, 10 * d - (b.v[4] * c.K.kp) \div 100) ELSE 1000

------------------------------------------------------------------------------
(* multilooking: ls is a sequence of looks [d, sh, p], p the power of the look after weighting *)
UsedSet(c, ls) == {j \in DOMAIN ls : UsedLook(c, ls[j].d, ls[j].sh)}
RECURSIVE SumP(_, _)
SumP(ls, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN ls[j].p + SumP(ls, S \ {j})
InBin(c, ls, k) == {j \in UsedSet(c, ls) : KeptBin(c, ls[j].d, ls[j].sh, k)}
Wave(c, ls, k) ==
  LET S == InBin(c, ls, k)
      n == IF c.O.avoid THEN Cardinality(S) ELSE Cardinality(UsedSet(c, ls))
  IN IF S = {} THEN 0 ELSE SumP(ls, S) \div n
FirstUsed(c, ls) == Min(UsedSet(c, ls))
LastUsed(c, ls) == Max(UsedSet(c, ls))
==============================================================================
