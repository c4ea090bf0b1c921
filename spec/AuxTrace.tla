------------------------------ MODULE AuxTrace ------------------------------
(* Validates what real auxiliary file objects answer.  A case is a sequence  *)
(* of steps [op, id, cls, doc, over, attr, res, got, warn]:                  *)
(*   op "new": object id made from the document doc and the overriding       *)
(*   values; warn: the parameters warned about; op "get": got is the value   *)
EXTENDS Aux, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, objs, verdict
vars == <<c, l, objs, verdict>>

Range(s) == {s[x] : x \in DOMAIN s}
Line == Cases[c].steps[l]
Doc(d) == [ok |-> d.ok, v |-> d.v, p |-> Range(d.p)]

Init == c \in DOMAIN Cases /\ l = 1 /\ objs = <<>> /\ verdict = "run"
New(s) == LET d == Doc(s.doc) IN
  IF s.res = "ok" /\ ~Loads(s.cls, d) THEN "accepted a file of version " \o ToString(d.v)
  ELSE IF s.res # "ok" /\ Loads(s.cls, d) THEN "refused: " \o s.res
  ELSE IF s.res = "ok" /\ ~(Unknown(s.cls, d) \subseteq Range(s.warn)) THEN "no warning about unknown parameters"
  ELSE IF s.res = "ok" /\ Range(s.warn) \cap Known(s.cls) # {} THEN "warning about a known parameter"
  ELSE "ok"
Got(s) == LET o == objs[s.id]
              e == Get(s.cls, o, s.attr)
          IN  IF s.got \in e THEN "ok" ELSE s.attr \o " is " \o ToString(s.got) \o " expected " \o ToString(e)
Clause == CASE Line.op = "new" -> New(Line) [] Line.op = "get" -> Got(Line) [] OTHER -> "ok"

Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET k == Clause IN
           IF k = "ok" THEN /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
                            /\ objs' = IF Line.op = "new" THEN Append(objs, Loaded(Doc(Line.doc), Range(Line.over))) ELSE objs
           ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Line.op \o " " \o Line.cls \o ": " \o k
                /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict') /\ UNCHANGED <<c, l, objs>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok") /\ UNCHANGED <<c, l, objs>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
