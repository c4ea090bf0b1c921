---------------------------- MODULE ReaderTrace ----------------------------
(* Validates what real products read.  A case: files, and steps              *)
(*   open  [id, file, roi, cal2, res, first, last, len]                      *)
(*   get   [id, i, res, rec]      data set [i]                               *)
(*   next  [id, it, res, rec]     the next record of iteration it            *)
(*   raw   [id, v, i, res, val]   value of a variable                        *)
(*   chunk [id, file, res]        a reader with a chunk size                 *)
(*   globals [id, res, rec]                                                  *)
(* rec: [num, s: name -> number, win, echoi, echoq, power, phase, cal2]      *)
EXTENDS Reader, Json

Cases == JsonDeserialize("cases.json")
VARIABLES c, l, ds, its, verdict
vars == <<c, l, ds, its, verdict>>

Range(s) == {s[x] : x \in DOMAIN s}
Ln == Cases[c].steps[l]
File(k) == Cases[c].files[k]
Roi(r) == [minlat |-> Range(r.minlat), maxlat |-> Range(r.maxlat), minlon |-> Range(r.minlon), maxlon |-> Range(r.maxlon)]

Init == c \in DOMAIN Cases /\ l = 1 /\ ds = <<>> /\ its = <<>> /\ verdict = "run"

Bad(f, i, s) == {a \in DOMAIN Copied : s[a] # Scalar(f, Copied[a], i)}
Rec(f, d, i, r) ==
  IF r.num # i THEN "record number " \o ToString(r.num) \o " for " \o ToString(i)
  ELSE IF Bad(f, i, r.s) # {} THEN LET a == CHOOSE x \in Bad(f, i, r.s) : TRUE IN
       a \o " of record " \o ToString(i) \o " is " \o ToString(r.s[a]) \o " expected " \o ToString(Scalar(f, Copied[a], i))
  ELSE IF r.win # Window(f, i) THEN "window range of record " \o ToString(i) \o " is " \o ToString(r.win) \o " expected " \o ToString(Window(f, i))
  ELSE IF r.echoi # Echo(f, "i_meas_ku", i) THEN "I of record " \o ToString(i) \o " is " \o ToString(r.echoi)
  ELSE IF r.echoq # Echo(f, "q_meas_ku", i) THEN "Q of record " \o ToString(i) \o " is " \o ToString(r.echoq)
  ELSE IF r.power # Line(f, "burst_power_cor_ku", i) THEN "CAL1 power of record " \o ToString(i) \o " is " \o ToString(r.power)
  ELSE IF r.phase # Line(f, "burst_phase_cor_ku", i) THEN "CAL1 phase of record " \o ToString(i) \o " is " \o ToString(r.phase)
  ELSE IF r.cal2 # Row(f, "gprw_meas_ku", i, d.cal2) THEN "CAL2 of record " \o ToString(i) \o " is " \o ToString(r.cal2)
  ELSE IF ~Near(r.sat, Sat(f, i)) THEN "satellite at " \o ToString(r.sat) \o " expected " \o ToString(Sat(f, i))
  ELSE IF ~Near(r.surf, Surface(f, i)) THEN "surface at " \o ToString(r.surf) \o " expected " \o ToString(Surface(f, i))
  ELSE "ok"

Open(s) == LET f == File(s.file)  roi == Roi(s.roi) IN
  IF Records(f, roi) = {} THEN "ok"      \* refused or empty: see C12
  ELSE IF s.res # "ok" THEN "not opened: " \o s.res
  ELSE IF s.len # Final(f, roi) - First(f, roi) + 1 THEN "length " \o ToString(s.len)
  ELSE IF s.first # Scalar(f, "time", First(f, roi)) THEN "first time " \o ToString(s.first)
  ELSE IF s.last # Scalar(f, "time", Final(f, roi)) THEN "last time " \o ToString(s.last)
  ELSE "ok"
Get(s) == LET d == ds[s.id]  f == File(d.file) IN
  IF ~Exists(f, s.i) THEN (IF s.res = "ok" THEN "record " \o ToString(s.i) \o " of " \o ToString(f.n) \o " given" ELSE "ok")
  ELSE IF s.res # "ok" THEN "record " \o ToString(s.i) \o ": " \o s.res
  ELSE Rec(f, d, s.i, s.rec)
NextRec(s) == LET d == ds[s.id]  f == File(d.file)  v == Visits(f, Roi(d.roi))  k == its[s.it] + 1 IN
  IF k > Len(v) THEN (IF s.res = "end" THEN "ok" ELSE "iteration goes on: " \o s.res)
  ELSE IF v[k] = -1 THEN (IF s.res = "none" THEN "ok" ELSE "record that is not to be used: " \o s.res)
  ELSE IF s.res # "ok" THEN "iteration: " \o s.res
  ELSE Rec(f, d, v[k], s.rec)
RawVal(s) == LET f == File(ds[s.id].file) IN
  IF ~Exists(f, s.i) THEN (IF s.res = "ok" THEN "value of record " \o ToString(s.i) \o " of " \o ToString(f.n) \o " given" ELSE "ok")
  ELSE IF s.res # "ok" THEN s.v \o "[" \o ToString(s.i) \o "]: " \o s.res
  ELSE IF s.val # Scalar(f, s.v, s.i) THEN s.v \o "[" \o ToString(s.i) \o "] is " \o ToString(s.val) ELSE "ok"
Globals(s) == LET g == File(ds[s.id].file).globals IN
  IF s.res # "ok" THEN s.res
  ELSE LET bad == {a \in DOMAIN s.rec : s.rec[a] # (IF a \in DOMAIN g THEN "=" \o g[a] ELSE "none")} IN
       IF bad = {} THEN "ok" ELSE (CHOOSE a \in bad : TRUE) \o " is wrong"

Clause == CASE Ln.op = "open" -> Open(Ln) [] Ln.op = "get" -> Get(Ln) [] Ln.op = "next" -> NextRec(Ln)
            [] Ln.op = "raw" -> RawVal(Ln) [] Ln.op = "globals" -> Globals(Ln) [] OTHER -> "ok"
Step == /\ verdict = "run" /\ l <= Len(Cases[c].steps)
        /\ LET k == Clause IN
           IF k = "ok" THEN /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
                            /\ ds' = IF Ln.op \in {"open", "chunk"} THEN Append(ds, [file |-> Ln.file, roi |-> Ln.roi, cal2 |-> Ln.cal2]) ELSE ds
                            /\ its' = IF Ln.op = "iter" THEN Append(its, 0)
                                      ELSE IF Ln.op = "next" THEN [its EXCEPT ![Ln.it] = @ + 1] ELSE its
           ELSE /\ verdict' = "step " \o ToString(l) \o " " \o Ln.op \o ": " \o k
                /\ PrintT("VERDICT " \o ToString(c) \o " " \o verdict') /\ UNCHANGED <<c, l, ds, its>>
Done == /\ verdict = "run" /\ l = Len(Cases[c].steps) + 1
        /\ verdict' = "ok" /\ PrintT("VERDICT " \o ToString(c) \o " ok") /\ UNCHANGED <<c, l, ds, its>>
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
