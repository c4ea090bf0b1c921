---------------------------- MODULE MonitorTrace ----------------------------
(* Validates recorded uses of the real monitors.  A case is                  *)
(*   [kind: "rec" | "con" | "null", steps]; a step is                        *)
(*   [op, i, j, work, total, label, msg, got, canc, hand, res]               *)
(* i: the monitor used, j: the new child, got: what the root was told or     *)
(* printed during the step (sequence of <<kind, work, msg>>), canc: what     *)
(* is_cancelled() says of every monitor afterwards, hand: who handles ^C.    *)
EXTENDS Monitors, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, ms, con, verdict
vars == <<c, l, ms, con, verdict>>

Line == Cases[c].steps[l]
Kind == Cases[c].kind
NoCon == [worked |-> 0, total |-> None, pct |-> {None}, msg |-> NoMsg, cancelled |-> FALSE, running |-> FALSE, label |-> NoMsg]

Init == c \in DOMAIN Cases /\ l = 1 /\ ms = <<Mon(0, 0)>> /\ con = NoCon /\ verdict = "run"

(* what the root gets told in a step: a sequence of <<"start"|"progress"|"done", work, msg>> *)
Told(s) ==
  LET child == ms[s.i].par # 0
      m1 == [ms EXCEPT ![s.i] = [@ EXCEPT !.total = s.total, !.label = s.label]]
  IN  CASE s.op = "start" -> IF child THEN LET a == Announce(m1, s.i) IN <<<<"progress", a[1], a[2]>>>>
                             ELSE <<<<"start", s.total, s.label>>>>
        [] s.op = "progress" -> LET a == Arrives(ms, s.i, s.work, s.msg) IN <<<<"progress", a[1], a[2]>>>>
        [] s.op = "done" -> IF child THEN LET a == Announce(ms, s.i) IN <<<<"progress", a[1], a[2]>>>>
                            ELSE <<<<"done", None, NoMsg>>>>
        [] OTHER -> <<>>

(* a console root: what it knows and prints after being told t *)
Shown(k, t) ==       \* <<new console state, lines: sequence of <<pct set, msg>>>>
  CASE t[1] = "start" -> <<[k EXCEPT !.worked = 0, !.total = t[2], !.pct = {None}, !.label = t[3], !.running = TRUE],
                           <<<<{None}, "started">>>>>>
    [] t[1] = "done" -> <<[k EXCEPT !.running = FALSE],
                          <<<<{None}, IF k.cancelled THEN "cancelled" ELSE IF k.msg = NoMsg THEN "done" ELSE k.msg>>>>>>
    [] OTHER ->
       LET w == IF t[2] = None THEN k.worked ELSE k.worked + t[2]
           p == IF t[2] = None \/ k.total \in {None, 0} THEN {None} ELSE Pcts(w, k.total)
       IN  <<[k EXCEPT !.worked = w, !.pct = p, !.msg = t[3]],
             IF p = k.pct /\ t[3] = k.msg THEN <<>> ELSE <<<<p, t[3]>>>>>>

\* printed lines <<pct, msg>> against what has to be shown
LineOk(x, e) == x[2] \in e[1] /\ x[3] = e[2]
LinesOk(got, exp, amb) ==
  \/ Len(got) = Len(exp) /\ \A i \in DOMAIN got : LineOk(got[i], exp[i])
  \/ amb /\ got = <<>>          \* percentage on the edge: it may not have changed

NewMs(s) == CASE s.op = "start" -> [(IF s.i = 1 THEN SubSeq(ms, 1, 1) ELSE ms) EXCEPT ![s.i] = [@ EXCEPT !.total = s.total, !.label = s.label]]
              [] s.op = "child" -> Append(ms, Mon(s.i, s.work))
              [] OTHER -> ms

Cancelled(s) == con.cancelled \/ s.op \in {"cancel", "sigint"}

Clause ==
  LET s == Line
      told == Told(s)
      shown == IF told = <<>> THEN <<con, <<>>>> ELSE Shown(con, told[1])
      canc == IF Kind = "null" THEN FALSE ELSE Cancelled(s)
      amb == told # <<>> /\ told[1][1] = "progress" /\ Cardinality(shown[1].pct \cup con.pct) > 1
             /\ shown[1].pct \cap con.pct # {} /\ told[1][3] = con.msg
  IN  IF s.res # "ok" THEN "raised " \o s.res
      ELSE IF Kind = "rec" /\ s.got # told THEN "root told " \o ToString(s.got) \o " expected " \o ToString(told)
      ELSE IF Kind = "null" /\ s.got # <<>> THEN "the null monitor did something"
      ELSE IF Kind = "con" /\ ~LinesOk(s.got, shown[2], amb) THEN "console shows " \o ToString(s.got) \o " expected " \o ToString(shown[2])
      ELSE IF \E i \in DOMAIN s.canc : s.canc[i] # canc THEN "cancellation not seen by all monitors, or seen without request"
      ELSE IF Kind = "con" /\ s.hand # (IF shown[1].running THEN "monitor" ELSE "before") THEN "interrupt handled by " \o s.hand
      ELSE "ok"

Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET k == Clause
               told == Told(Line)
           IN  IF k = "ok"
               THEN /\ l' = l + 1 /\ ms' = NewMs(Line)
                    /\ con' = [(IF told = <<>> THEN con ELSE Shown(con, told[1])[1]) EXCEPT !.cancelled = Cancelled(Line)]
                    /\ UNCHANGED <<c, verdict>>
               ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Line.op \o ": " \o k
                    /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
                    /\ UNCHANGED <<c, l, ms, con>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok")
        /\ UNCHANGED <<c, l, ms, con>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
