-------------------------------- MODULE Stats --------------------------------
(* What a record says about the stack it was made from.                        *)
(* The power of the looks over their angle is described by a Gaussian: height  *)
(* of its top (relative to the strongest look), half width, skewness and       *)
(* kurtosis of its values.  A stack whose power is such a curve is described   *)
(* by that curve.  Only the 124 looks on either side of the one closest to     *)
(* zero Doppler count.                                                         *)
(*   g : [b, w]: place of the top and width, in thousandths of a look          *)
(*   y : power of the looks, in thousandths of the strongest                   *)
EXTENDS Integers, Sequences
AbsV(x) == IF x < 0 THEN -x ELSE x
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a < b THEN b ELSE a

(* the looks that count: at is the one closest to zero Doppler, n their number *)
Side == 124
First(at) == MaxV(1, at - Side)
Final(at, n) == MinV(n, at + Side)
Central(y, at) == SubSeq(y, First(at), Final(at, Len(y)))
(* the look closest to zero Doppler; zd: beam angle of each look less a right angle *)
ZeroDoppler(zd) == CHOOSE j \in DOMAIN zd : \A m \in DOMAIN zd : AbsV(zd[j]) < AbsV(zd[m]) \/ (AbsV(zd[j]) = AbsV(zd[m]) /\ j <= m)

(* top of the curve over the strongest look (ten-thousandths): exp(u), u = ((distance of that look) / w)^2 *)
Top(g, n) ==
  LET m == MinV(1000 * (n - 1), MaxV(0, ((g.b + 500) \div 1000) * 1000))
      q == ((g.b - m) * 1000) \div g.w
      u == (q * q) \div 100                     \* ten-thousandths
  IN 10000 + u + (u * u) \div 20000 + (((u * u) \div 10000) * u) \div 60000

(* moments of the values y *)
RECURSIVE SumOf(_, _), Root(_, _)
SumOf(s, j) == IF j > Len(s) THEN 0 ELSE s[j] + SumOf(s, j + 1)
Root(x, r) == LET q == (r + x \div r) \div 2 IN IF q >= r THEN r ELSE Root(x, q)
Sqrt(x) == IF x = 0 THEN 0 ELSE Root(x, 46340)
MeanOf(s) == SumOf(s, 1) \div Len(s)
Dev(y) == Sqrt(SumOf([j \in DOMAIN y |-> (y[j] - MeanOf(y)) * (y[j] - MeanOf(y))], 1) \div Len(y))
(* deviations in hundredths of the standard deviation *)
Z(y) == LET m == MeanOf(y)  d == Dev(y) IN [j \in DOMAIN y |-> ((y[j] - m) * 100) \div d]
Skewness(y) == LET z == Z(y) IN SumOf([j \in DOMAIN z |-> ((z[j] * z[j]) \div 100) * z[j]], 1) \div Len(y)     \* ten-thousandths
Kurtosis(y) == LET z == Z(y) IN SumOf([j \in DOMAIN z |-> ((z[j] * z[j]) \div 100) * ((z[j] * z[j]) \div 100)], 1) \div Len(y) - 30000

(* looks that are used: first and last of them; mv: mask vector, 0 for a look that is not *)
Used(mv) == {j \in DOMAIN mv : mv[j] # 0}
FirstUse(mv) == CHOOSE j \in Used(mv) : \A m \in Used(mv) : j <= m
LastUse(mv) == CHOOSE j \in Used(mv) : \A m \in Used(mv) : j >= m
==============================================================================
