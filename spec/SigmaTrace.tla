----------------------------- MODULE SigmaTrace -------------------------------
(* Real surfaces, their scaling factors as the processor stored them.          *)
(* A case: [k, ls, agc: <<of each burst>>, closest, err, mean, looks].         *)
EXTENDS Sigma, Json, TLC, TLCExt
VARIABLES c, verdict
Cases == JsonDeserialize("cases.json")
Case == Cases[c]
Near(a, b, t) == a - b \in -t .. t
Exp == Factors(Case.k, Case.ls, Case.agc[Case.closest])
Wrong == {j \in DOMAIN Exp : ~Near(Case.looks[j], Exp[j], 25)}
Verdict ==
  IF Case.err # "" THEN "failed: " \o Case.err
  ELSE IF Len(Case.looks) # Len(Case.ls) THEN ToString(Len(Case.looks)) \o " factors for " \o ToString(Len(Case.ls)) \o " looks"
  ELSE IF Wrong # {} THEN LET j == CHOOSE j \in Wrong : TRUE IN "factor of look " \o ToString(j) \o " is " \o ToString(Case.looks[j]) \o ", expected " \o ToString(Exp[j])
  ELSE IF ~Near(Case.mean, Mean(Exp), 25) THEN "factor of the surface is " \o ToString(Case.mean) \o ", expected " \o ToString(Mean(Exp))
  ELSE "ok"
Init == c \in DOMAIN Cases /\ verdict = "run"
Step == /\ verdict = "run"
        /\ verdict' = Verdict
        /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
        /\ UNCHANGED c
Spec == Init /\ [][Step]_<<c, verdict>>
===============================================================================
