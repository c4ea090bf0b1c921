----------------------------- MODULE StatsTrace -------------------------------
(* Real stacks, what the processor says about them.                            *)
EXTENDS Stats, Json, TLC, TLCExt
VARIABLES c, verdict
Cases == JsonDeserialize("cases.json")
Case == Cases[c]
O == Case.obs
Near(a, b, t) == a - b \in -t .. t
Shape ==
  LET at == ZeroDoppler(Case.zd)
      y == TLCEval(Central(Case.y, at))
      g == [b |-> Case.g.b - 1000 * (First(at) - 1), w |-> Case.g.w]
      std == (AbsV(Case.dx) * Case.g.w) \div 2                     \* 1e-9 rad
      tol(d) == 2 + (AbsV(d) * Case.g.w) \div 400
      top == Top(g, Len(y))
      sk == Skewness(y)
      ku == Kurtosis(y)
  IN IF ~Near(O.max, top, 12) THEN "top " \o ToString(O.max) \o ", expected " \o ToString(top)
     ELSE IF ~Near(O.std, std, 2 + std \div 400) THEN "standard deviation " \o ToString(O.std) \o ", expected " \o ToString(std)
     ELSE IF ~Near(O.centre, 1000 * Case.x0 + Case.dx * Case.g.b, tol(Case.dx))
       THEN "centre " \o ToString(O.centre) \o ", expected " \o ToString(1000 * Case.x0 + Case.dx * Case.g.b)
     ELSE IF ~Near(O.pcentre, 1000 * Case.p0 + Case.dp * Case.g.b, tol(Case.dp))
       THEN "pointing centre " \o ToString(O.pcentre) \o ", expected " \o ToString(1000 * Case.p0 + Case.dp * Case.g.b)
     ELSE IF ~Near(O.skew, sk, 500 + AbsV(sk) \div 20) THEN "skewness " \o ToString(O.skew) \o ", expected " \o ToString(sk)
     ELSE IF ~Near(O.kurt, ku, 900 + AbsV(ku) \div 20) THEN "kurtosis " \o ToString(O.kurt) \o ", expected " \o ToString(ku)
     ELSE "ok"
Uses ==
  IF Used(Case.mv) = {}
  THEN IF O.nuse # 0 THEN "looks used although all are masked"
       ELSE IF \E k \in DOMAIN O.ends : O.ends[k] # <<0, 0>> THEN "angles of looks although all are masked" ELSE "ok"
  ELSE LET a == FirstUse(Case.mv)
           z == LastUse(Case.mv)
           ends(k) == LET s == Case[k] IN <<s[a], s[z]>>
           bad == {k \in DOMAIN O.ends : \E i \in {1, 2} : ~Near(O.ends[k][i], ends(k)[i], 1)}
       IN IF O.nuse # z - a + 1 THEN ToString(O.nuse) \o " looks from the first to the last used, expected " \o ToString(z - a + 1)
          ELSE IF bad # {} THEN LET k == CHOOSE k \in bad : TRUE IN k \o " angle of the first and the last look " \o ToString(O.ends[k]) \o ", expected " \o ToString(ends(k))
          ELSE IF O.ids # <<Case.ids[1], Case.ids[Case.n]>> THEN "first and last burst " \o ToString(O.ids)
          ELSE IF O.mv # SubSeq(Case.mv, a, z) THEN "mask ends " \o ToString(O.mv)
          ELSE IF \E i \in DOMAIN O.look : ~Near(O.look[i], Case.look[a + i - 1], 1) THEN "look angles " \o ToString(O.look)
          ELSE IF \E i \in DOMAIN O.zd : ~Near(O.zd[i], Case.zd[a + i - 1], 1) THEN "beam angles " \o ToString(O.zd)
          ELSE "ok"
Verdict ==
  IF O.err # "" THEN "failed: " \o O.err
  ELSE IF O.std < 0 THEN "negative standard deviation"
  ELSE IF Uses # "ok" THEN Uses
  ELSE IF Case.shape THEN Shape ELSE "ok"
Init == c \in DOMAIN Cases /\ verdict = "run"
Step == /\ verdict = "run"
        /\ verdict' = Verdict
        /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
        /\ UNCHANGED c
Spec == Init /\ [][Step]_<<c, verdict>>
===============================================================================
