------------------------------- MODULE GeoTrace -------------------------------
(* Conversions by the real code, positions of bursts read from generated files, *)
(* and positions in products of generated passes.                               *)
EXTENDS Geo, Sequences, Json
VARIABLES c, verdict
Cases == JsonDeserialize("cases.json")
K == Cases[c]
Ang(a) == [c |-> Num(a.c.s, a.c.d), s |-> Num(a.s.s, a.s.d)]
N(x) == Num(x.s, x.d)
Pos(p) == [x |-> N(p.x), y |-> N(p.y), z |-> N(p.z)]
E == [a |-> N(K.a), b |-> N(K.b)]
Belongs(q, t, u) == At(E, Ang(q.lat), Ang(q.lon), N(q.h), Pos(q.p), t, u)
(* the satellite is between bursts i and i + 1, f thousandths of the way: positions relative to the first of them, in cm *)
Between(r) == \A x \in DOMAIN r.at : LET d == 1000 * r.at[x] - r.f * r.to[x] IN d \in -r.tol .. r.tol
(* what the web service says of a file is what the file holds *)
Told(m) == m.said = (IF m.is_end THEN <<m.is_[1], m.is_[Len(m.is_)]>> ELSE m.is_)
(* directions: of looks, and of a surface seen from above the one before *)
Right(m) == LET t == Of(m.tol) IN
  CASE m.kind \in {"angle", "next"} -> CosIs(Pos(m.v), Pos(m.d), N(m.a), t)
    [] m.kind = "look" -> Looks(Ang(m.lat), Ang(m.lon), Pos(m.v), Pos(m.d), N(m.a), t)
    [] m.kind = "climb" -> Climbs(Ang(m.lat), Ang(m.lon), Pos(m.v), N(m.a), t)
    [] OTHER -> Long(Pos(m.d), N(m.a), t)
Verdict ==
  IF K.why # "" THEN K.why
  ELSE LET bad == {i \in DOMAIN K.q : Belongs(K.q[i], K.t, K.u) # "ok"}
           off == {i \in DOMAIN K.r : ~Between(K.r[i])}
           lie == {i \in DOMAIN K.said : ~Told(K.said[i])}
           askew == {i \in DOMAIN K.g : ~Right(K.g[i])}
           i == CHOOSE i \in bad : \A j \in bad : i <= j
           m == CHOOSE m \in off : \A j \in off : m <= j
       IN IF lie # {} THEN "another answer: " \o K.said[CHOOSE x \in lie : \A y \in lie : x <= y].what
          ELSE IF bad # {} THEN K.q[i].what \o ": " \o Belongs(K.q[i], K.t, K.u)
          ELSE IF askew # {} THEN K.g[CHOOSE x \in askew : \A y \in askew : x <= y].what
          ELSE IF off # {} THEN "record " \o ToString(K.r[m].n) \o ": the satellite was elsewhere"
          ELSE "ok"
Init == c \in DOMAIN Cases /\ verdict = "run"
Step == /\ verdict = "run"
        /\ verdict' = Verdict
        /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict')
        /\ UNCHANGED c
Spec == Init /\ [][Step]_<<c, verdict>>
===============================================================================
