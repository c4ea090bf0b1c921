------------------------------ MODULE ChainTrace ------------------------------
(* Judges recorded runs of the real chain (cases.json) against Chain.tla.        *)
(* A case: [P, rs, cal1, cal2, idx, skip, cancel, file, name, glob, obs, want].  *)
(* want: the clauses to decide.                                                  *)
EXTENDS Looks, Text, Json

Cases == JsonDeserialize("cases.json")
VARIABLE n

Near(a, b, tol) == Abs(a - b) <= tol

Roi(c) == {i \in DOMAIN c.rs : c.rs[i].roi}
Window(c) == IF Roi(c) = {} THEN 0 ELSE Max(Roi(c)) - Min(Roi(c)) + 1

MaxAmp(c, st) == Max({Amp(c, c.rs[st[j]]) : j \in DOMAIN st})
RECURSIVE SumSq(_, _, _)
SumSq(c, st, j) == IF j = 0 THEN 0 ELSE Amp(c, c.rs[st[j]]) * Amp(c, c.rs[st[j]]) + SumSq(c, st, j - 1)

------------------------------------------------------------------------------
(* one record r of the product against the expected surface e; each gives "ok" or what is wrong *)
StackOk(c, e, r) ==
  IF r.nb # Len(e.st) THEN "number of looks " \o ToString(r.nb) \o ", expected " \o ToString(Len(e.st))
  ELSE IF Len(r.looks) # Len(e.st) THEN "look angles missing"
  ELSE IF \E j \in DOMAIN e.st : ~Near(r.looks[j], e.pos - c.rs[e.st[j]].pos, 3)
       THEN "look angles of other bursts than expected: " \o ToString(r.looks) ELSE "ok"

PayloadOk(c, e, r) ==
  IF c.noise \/ c.steer THEN "ok"
  ELSE IF r.s # <<>> /\ \E j \in DOMAIN e.st :
          j > Len(r.s[1].amps)
          \/ ~Near(r.s[1].amps[j][1], Amp(c, c.rs[e.st[j]]), MaxAmp(c, e.st) \div 120 + 2)
          \/ (Amp(c, c.rs[e.st[j]]) * 20 > MaxAmp(c, e.st) /\ r.s[1].amps[j][2] # Phase(c, c.rs[e.st[j]]))
       THEN "echoes of other bursts, or not calibrated once: " \o ToString(r.s[1].amps)
  ELSE IF Len(e.st) > 0 /\ ~Near(r.pw, SumSq(c, e.st, Len(e.st)) \div Len(e.st),
                                 SumSq(c, e.st, Len(e.st)) \div (200 * Len(e.st)) + 2)
       THEN "power " \o ToString(r.pw) \o " is not that of the stack" ELSE "ok"

(* the look of a burst is its beam on this surface: what the burst received from another surface is not in it *)
Steered(c, e, i) == IF c.rs[i].aim = e.pos THEN Amp(c, c.rs[i]) ELSE 0
SteerOk(c, e, r) ==
  IF ~c.steer \/ r.s = <<>> THEN "ok"
  ELSE IF \E j \in DOMAIN e.st : j > Len(r.s[1].amps)
            \/ ~Near(r.s[1].amps[j][1], Steered(c, e, e.st[j]), MaxAmp(c, e.st) \div 120 + 2 + Amp(c, c.rs[e.st[j]]) \div 8)
       THEN "looks not focused on the surface: " \o ToString(r.s[1].amps) \o " expected " \o ToString([j \in DOMAIN e.st |-> Steered(c, e, e.st[j])])
  ELSE "ok"

(* the bursts have one pulse (number pl) that is not zero: what of it is left in the look is its weight in the azimuth window *)
Tapered(c, i) == (Amp(c, c.rs[i]) * Taper(c.T, c.P.pulses, c.rs[i].pl)) \div 10000
WindowOk(c, e, r) ==
  IF c.noise \/ r.s = <<>> THEN "ok"
  ELSE LET most == Max({Tapered(c, e.st[j]) : j \in DOMAIN e.st}) IN
       IF \E j \in DOMAIN e.st : j > Len(r.s[1].amps) \/ ~Near(r.s[1].amps[j][1], Tapered(c, e.st[j]), (most \div 120) + 2)
       THEN "pulses weighted " \o ToString(r.s[1].amps) \o " expected " \o ToString([j \in DOMAIN e.st |-> Tapered(c, e.st[j])])
       ELSE "ok"

AlignOk(c, e, r) ==
  IF c.skip THEN "ok"
  ELSE IF r.s = <<>> THEN "no L1BS record"
  ELSE IF ~r.s[1].same THEN "L1B and L1BS record differ in time or place"
  ELSE IF r.s[1].nb # Len(e.st) THEN "L1BS number of looks " \o ToString(r.s[1].nb)
  ELSE IF r.s[1].bs # c.rs[e.st[1]].id \/ r.s[1].be # c.rs[e.st[Len(e.st)]].id
       THEN "first and last burst " \o ToString(<<r.s[1].bs, r.s[1].be>>)
  ELSE IF r.s[1].cnt # Counter(c.rs, c.P, e) THEN "record counter " \o ToString(r.s[1].cnt) ELSE "ok"

FieldsOk(c, e, r) ==
  LET b == c.rs[Closest(c.rs, e.st, e.pos)]
  IN IF r.cid # b.id THEN "sequence count " \o ToString(r.cid) \o " is not that of the closest burst " \o ToString(b.id)
     ELSE IF r.f # b.f[1] THEN "fields are not those of the closest burst: " \o ToString(r.f) \o " expected " \o ToString(b.f[1])
     ELSE IF r.s # <<>> /\ r.s[1].f # b.f[2]
          THEN "L1BS fields are not those of the closest burst: " \o ToString(r.s[1].f) \o " expected " \o ToString(b.f[2])
     ELSE "ok"

(* the scaling factor is that of the radar equation; the satellite flies in a circle, all looks are nearly as long *)
Radar == INSTANCE Sigma
SigmaOk(c, e, r) ==
  LET b == c.rs[Closest(c.rs, e.st, e.pos)]
      x == Radar!Factor(c.S.k, c.S.l, 100 * b.f[1][Len(b.f[1]) - 3]) \div 100
  IN IF ~Near(r.sg, x, 3) THEN "scaling factor " \o ToString(r.sg) \o ", expected " \o ToString(x)
     ELSE IF c.ext /\ (Len(r.sl) # Len(e.st) \/ \E j \in DOMAIN r.sl : ~Near(r.sl[j], x, 3))
          THEN "scaling factors of the looks " \o ToString(r.sl) \o ", expected " \o ToString(Len(e.st)) \o " of " \o ToString(x)
     ELSE "ok"

(* value interpolated between the bursts around the surface; v(b) in units, tolerance in units, obs in tenths of units *)
InterpOk(c, e, seg, obs, v(_), tol) ==
  LET j == Bracket(c.rs, seg, e.pos)
  IN IF e.k = 0 THEN Near(obs, 10 * v(c.rs[seg[1]]), tol)
     ELSE IF ~Near(obs, 10 * v(c.rs[seg[j]]), 30000) THEN FALSE
     ELSE LET p == c.rs[seg[j - 1]]
              q == c.rs[seg[j]]
          IN Near((obs - 10 * v(p)) * (q.pos - p.pos), 10 * (e.pos - p.pos) * (v(q) - v(p)), tol * (q.pos - p.pos))
TimeOk(c, e, seg, r) ==
  IF ~InterpOk(c, e, seg, r.t, LAMBDA b : b.t, 12) THEN "time is not that of the overflight: " \o ToString(r.t)
  ELSE IF \E x \in {1, 3} \cap DOMAIN r.sat : (\E k \in DOMAIN r.sat[x] : ~Near(r.sat[x][k], 10 * e.pos, 6)) \/ ~Near(r.sat[x + 1], 0, 4)
       THEN "orbit is not that of the overflight: " \o ToString(r.sat) \o " expected " \o ToString(10 * e.pos)
  ELSE IF ~Near(r.gps, r.t, 1) THEN "GPS time " \o ToString(r.gps)
  ELSE IF \E k \in DOMAIN r.v : ~InterpOk(c, e, seg, r.v[k], LAMBDA b : b.v[k], 2)
       THEN "platform state is not that of the overflight: " \o ToString(r.v) ELSE "ok"

(* UTC: counted on from the burst before the surface; the day changes at its length.  Hundredths of a burst interval *)
UtcOk(c, e, seg, r) ==
  LET j == Bracket(c.rs, seg, e.pos)
      p == IF e.k = 0 THEN c.rs[seg[1]] ELSE c.rs[seg[j - 1]]
      q == c.rs[seg[j]]
      el == IF e.k = 0 THEN 0 ELSE ((e.pos - p.pos) * (q.t - p.t)) \div (10 * (q.pos - p.pos))
      len == c.day + (IF e.k = 0 THEN 0 ELSE ((q.t - p.t) \div 10) - ((q.d - p.d) * c.day + (q.s - p.s)))
      over == e.k > 0 /\ q.d > p.d /\ p.s + el >= len      \* two bursts of one day: no midnight between them
  IN IF e.k > 0 /\ q.d > p.d /\ Near(p.s + el, len, 2) THEN "ok"           \* too close to midnight to tell
     ELSE IF r.day # p.d + (IF over THEN 1 ELSE 0) THEN "UTC day " \o ToString(r.day)
     ELSE IF ~Near(r.sec, p.s + el - (IF over THEN len ELSE 0), 2) THEN "UTC second " \o ToString(r.sec) ELSE "ok"

(* the looks of the record.  tol: how exactly (thousandths of a sample) the shift is known; where rounding is
   undecided the two shifts lo and hi differ *)
Slack(c, e, seg) ==
  IF e.k = 0 THEN 0 ELSE LET j == Bracket(c.rs, seg, e.pos) IN Abs(Win(c, c.rs[seg[j]]) - Win(c, c.rs[seg[j - 1]])) \div 800
LooksOf(c, e, seg) ==
  LET ws == SurfWin(c, e, seg)
      sag == Sag(c, e, seg)
      tol == 12 + Slack(c, e, seg)
  IN TLCEval([j \in DOMAIN e.st |->
       LET b == c.rs[e.st[j]]
           d == e.pos - b.pos
           x == Shift(c, b, d, ws, sag)
       IN [d |-> d, x |-> x, sh |-> Round(x), lo |-> Round(x - tol), hi |-> Round(x + tol),
           p |-> (Amp(c, b) * Amp(c, b) * LookWeight(c, b, d)) \div 1000, p0 |-> Amp(c, b) * Amp(c, b)]])
UsedKnown(c, ls) == \A j \in DOMAIN ls : UsedLook(c, ls[j].d, ls[j].lo) = UsedLook(c, ls[j].d, ls[j].hi)
BinKnown(c, ls, k) == \A j \in DOMAIN ls : KeptBin(c, ls[j].d, ls[j].lo, k) = KeptBin(c, ls[j].d, ls[j].hi, k)

(* what the product says about the masks: number of looks, their mask ends, the first and last look angle *)
MaskOk(c, e, seg, r) ==
  LET ls == LooksOf(c, e, seg)
      us == UsedSet(c, ls)
      nu == IF us = {} THEN 0 ELSE Max(us) - Min(us) + 1
      ss == IF us = {} THEN <<0, 0>> ELSE <<ls[Min(us)].d, ls[Max(us)].d>>
  IN IF ~UsedKnown(c, ls) THEN "ok"
     ELSE IF c.ext /\ r.nb # nu THEN "number of looks between the first and the last one used: " \o ToString(r.nb) \o ", expected " \o ToString(nu)
     ELSE IF c.ext /\ \E i \in 1 .. nu : LET l == ls[Min(us) + i - 1]
                                       IN r.mv[i] \notin {MaskEnd(c, l.d, l.lo), MaskEnd(c, l.d, l.hi)}
          THEN "stack mask vector " \o ToString(r.mv) \o ", expected " \o ToString([i \in 1 .. nu |-> MaskEnd(c, ls[Min(us) + i - 1].d, ls[Min(us) + i - 1].sh)])
     ELSE IF c.ext /\ \E i \in {1, 2} : ~Near(r.ss[i], ss[i], 3) THEN "start/stop look angle " \o ToString(r.ss) \o ", expected " \o ToString(ss)
     ELSE IF r.s # <<>> /\ \E i \in {1, 2} : ~Near(r.s[1].ss[i], ss[i], 3) THEN "L1BS start/stop look angle " \o ToString(r.s[1].ss) \o ", expected " \o ToString(ss)
     ELSE "ok"

(* each bin of the waveform is the average of the looks that are in it *)
WaveBad(c, ls, r, k) ==
  LET top == Max({ls[j].p0 : j \in DOMAIN ls} \cup {0})
      v == Wave(c, ls, k)
  IN BinKnown(c, ls, k) /\ ~Near(r.wf[k + 1], v, 2 + v \div 100 + (IF c.O.aw THEN top \div 40 ELSE 0))
WaveOk(c, e, seg, r) ==
  LET ls == LooksOf(c, e, seg)
      bad == {k \in 0 .. Bins(c) - 1 : WaveBad(c, ls, r, k)}
  IN IF Len(r.wf) # Bins(c) THEN "waveform of " \o ToString(Len(r.wf)) \o " bins"
     ELSE IF ~UsedKnown(c, ls) \/ bad = {} THEN "ok"
     ELSE "waveform: bin " \o ToString(Min(bad)) \o " has " \o ToString(r.wf[Min(bad) + 1]) \o ", expected " \o ToString(Wave(c, ls, Min(bad)))

(* an echo at the place of the surface appears at the same range bin in all looks *)
RangeOk(c, e, seg, r) ==
  LET ls == LooksOf(c, e, seg)
      nb == Bins(c)
      at(j) == ((1000 * c.rs[e.st[j]].tone + ls[j].x) * c.K.zp) \div 1000 + nb \div 2
      off(j) == (((r.s[1].peaks[j] - at(j)) % nb) + nb) % nb
  IN IF ~Near(r.rng, 10 * SurfWin(c, e, seg), 30 + 10 * Slack(c, e, seg)) THEN "range " \o ToString(r.rng) \o " is not that of the overflight"
     ELSE IF r.s # <<>> /\ ~Near(r.s[1].rng, r.rng, 5) THEN "L1BS range " \o ToString(r.s[1].rng)
     ELSE IF r.s # <<>> /\ Len(r.s[1].peaks) # Len(e.st) THEN "looks missing"
     ELSE IF r.s # <<>> /\ \E j \in DOMAIN e.st : off(j) \notin {0, 1, 2, nb - 1}
          THEN "echoes at bins " \o ToString(r.s[1].peaks) \o ", expected " \o ToString([j \in DOMAIN e.st |-> at(j) % nb])
     ELSE "ok"

RecordClause(cl, c, e, seg, r) ==
  CASE cl = "stack" -> StackOk(c, e, r)
    [] cl = "payload" -> PayloadOk(c, e, r)
    [] cl = "steer" -> SteerOk(c, e, r)
    [] cl = "sigma" -> SigmaOk(c, e, r)
    [] cl = "window" -> WindowOk(c, e, r)
    [] cl = "align" -> AlignOk(c, e, r)
    [] cl = "fields" -> FieldsOk(c, e, r)
    [] cl = "time" -> TimeOk(c, e, seg, r)
    [] cl = "utc" -> UtcOk(c, e, seg, r)
    [] cl = "mask" -> MaskOk(c, e, seg, r)
    [] cl = "wave" -> WaveOk(c, e, seg, r)
    [] cl = "range" -> RangeOk(c, e, seg, r)

PerRecord == {"stack", "steer", "window", "sigma", "payload", "align", "fields", "time", "utc", "mask", "wave", "range"}

(* records in place: position by position *)
PlaceOk(c, ex, recs) ==
  IF Len(recs) > Len(ex) THEN ToString(Len(recs)) \o " records, expected " \o ToString(Len(ex))
  ELSE IF \E j \in DOMAIN recs : ~Near(recs[j].p, 10 * ex[j].pos, 4)
       THEN LET j == CHOOSE j \in DOMAIN recs : ~Near(recs[j].p, 10 * ex[j].pos, 4) /\ \A m \in 1 .. j - 1 : Near(recs[m].p, 10 * ex[m].pos, 4)
            IN "record " \o ToString(j) \o " at " \o ToString(recs[j].p) \o ", expected " \o ToString(10 * ex[j].pos)
  ELSE "ok"

------------------------------------------------------------------------------
(* product names *)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF Ch(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Stem(s) == LET d == LastDot(s, Len(s)) IN IF d > 1 THEN SubSeq(s, 1, d - 1) ELSE s
BaseName(f) == LET b == Stem(f) IN IF StartsWith(b, "L1A") THEN SubSeq(b, 4, Len(b)) ELSE b
Product(kind, f, name) == kind \o (IF BaseName(f) = "" THEN "" ELSE "_" \o BaseName(f)) \o "_" \o name \o ".nc"
Products(c) == {Product("L1B", c.file, c.name)} \cup (IF c.skip THEN {} ELSE {Product("L1BS", c.file, c.name)})

NamesOk(c, o) ==
  IF {o.made[j] : j \in DOMAIN o.made} # Products(c) THEN "files made: " \o ToString(o.made) \o ", expected " \o ToString(Products(c))
  ELSE IF ~o.input_kept THEN "the input was changed" ELSE "ok"

GlobOk(c, o) ==
  IF \E k \in DOMAIN c.glob : k \notin DOMAIN o.glob \/ o.glob[k] # c.glob[k]
  THEN "global attribute " \o (CHOOSE k \in DOMAIN c.glob : k \notin DOMAIN o.glob \/ o.glob[k] # c.glob[k])
  ELSE IF ~c.skip /\ \E k \in DOMAIN c.globs : k \notin DOMAIN o.globs \/ o.globs[k] # c.globs[k]
  THEN "L1BS global attribute " \o (CHOOSE k \in DOMAIN c.globs : k \notin DOMAIN o.globs \/ o.globs[k] # c.globs[k])
  ELSE IF ~Near(o.ft, c.rs[Min(Roi(c))].t, 1) \/ ~Near(o.lt, c.rs[Max(Roi(c))].t, 1)
       THEN "first/last measurement time " \o ToString(<<o.ft, o.lt>>) ELSE "ok"

(* the input dataset itself: the window of the region of interest, usable records as they are, the others empty *)
InWindow(c) == [j \in 1 .. Window(c) |-> LET b == c.rs[Min(Roi(c)) + j - 1] IN IF b.use THEN b.id ELSE -1]
DatasetOk(c, o) ==
  IF Roi(c) = {} THEN "ok"
  ELSE IF o.ds.err # "" THEN "dataset: " \o o.ds.err
  ELSE IF o.ds.len # Window(c) \/ o.ds.max # Window(c) THEN "length " \o ToString(<<o.ds.len, o.ds.max>>) \o ", records " \o ToString(Window(c))
  ELSE IF o.ds.nx # InWindow(c) THEN "read one by one: " \o ToString(o.ds.nx) \o " expected " \o ToString(InWindow(c))
  ELSE IF o.ds.it # InWindow(c) THEN "iterated: " \o ToString(o.ds.it) \o " expected " \o ToString(InWindow(c))
  ELSE IF ~Near(o.ds.ft, c.rs[Min(Roi(c))].t, 1) \/ ~Near(o.ds.lt, c.rs[Max(Roi(c))].t, 1) THEN "first/last time"
  ELSE IF \E j \in DOMAIN o.ds.mem : o.ds.mem[j] # c.rs[j].id THEN "by index: " \o ToString(o.ds.mem)
  ELSE IF \E j \in DOMAIN o.ds.mem : o.ds.pos[j] # -1 /\ ~Near(o.ds.pos[j], 10 * c.rs[j].pos, 2) THEN "position by index: " \o ToString(o.ds.pos)
  ELSE "ok"

ProgressOk(c, o) ==
  IF c.nomon THEN "ok"
  ELSE IF o.started # 1 \/ o.dones # 1 THEN "monitor started/done " \o ToString(<<o.started, o.dones>>)
  ELSE IF o.total # Window(c) THEN "announced work " \o ToString(o.total) \o ", records " \o ToString(Window(c))
  ELSE IF o.neg THEN "negative progress"
  ELSE IF o.peak > 1000 * o.total + 1 THEN "progress beyond the announced work: " \o ToString(o.peak)
  ELSE IF o.err = "" /\ o.status = 0 /\ c.cancel < 0 /\ ~Near(o.work, 1000 * o.total, 1)
       THEN "progress at the end " \o ToString(o.work) ELSE "ok"

CancelOk(c, o) ==
  IF c.cancel < 0 THEN "ok"
  ELSE IF o.err # "" /\ ~Insufficient(c.rs, c.P) THEN "cancelled run failed: " \o o.err
  ELSE IF o.work > 1000 * (c.cancel + 3) THEN "read on after the cancellation: " \o ToString(o.work)
  ELSE IF c.cancel + 3 < Window(c) /\ o.status = 0 THEN "cancelled run reported as complete"
  ELSE "ok"

Refusal(c, o) == Insufficient(c.rs, c.P)

Judge(c) ==
  LET o == c.obs
      ex == TLCEval(IF c.focus THEN ExpectedFocus(c.rs, c.P, c.target) ELSE Expected(c.rs, c.P))
      sg == TLCEval(Segments(c.rs, c.P))
      w(cl) == \E j \in DOMAIN c.want : c.want[j] = cl
      stopped == c.cancel >= 0
      glob(cl) == CASE cl = "refusal" -> IF ~stopped /\ Insufficient(c.rs, c.P) /\ o.err # "insufficient" /\ (Roi(c) # {} \/ o.err = "") THEN "too short input accepted or failed otherwise: " \o o.err
                                        ELSE IF ~Insufficient(c.rs, c.P) /\ o.err # "" THEN "failed: " \o o.err ELSE "ok"
                    [] cl = "progress" -> ProgressOk(c, o)
                    [] cl = "dataset" -> DatasetOk(c, o)
                    [] cl = "cancel" -> CancelOk(c, o)
                    [] cl = "names" -> IF o.err = "" THEN NamesOk(c, o) ELSE "ok"
                    [] cl = "globals" -> IF o.err = "" THEN GlobOk(c, o) ELSE "ok"
                    [] cl = "count" -> IF o.err # "" THEN "ok"
                                       ELSE IF ~stopped /\ o.status # 0 THEN "status " \o ToString(o.status)
                                       ELSE IF ~stopped /\ Len(o.recs) # Len(ex) THEN ToString(Len(o.recs)) \o " records, expected " \o ToString(Len(ex))
                                       ELSE IF ~c.skip /\ o.n1 # o.n2 THEN "L1B has " \o ToString(o.n1) \o " records, L1BS " \o ToString(o.n2)
                                       ELSE "ok"
                    [] cl = "place" -> IF o.err # "" THEN "ok" ELSE PlaceOk(c, ex, o.recs)
      gcl == {"refusal", "dataset", "progress", "cancel", "names", "globals", "count", "place"}
      bad == {cl \in gcl : w(cl) /\ glob(cl) # "ok"}
      \* records at their expected place are judged one by one, whatever happened to the others
      m == IF Len(o.recs) < Len(ex) THEN Len(o.recs) ELSE Len(ex)
      pairs == {j \in 1 .. m : Near(o.recs[j].p, 10 * ex[j].pos, 4)}
      badr == {<<j, cl>> \in pairs \X PerRecord :
                 w(cl) /\ RecordClause(cl, c, ex[j], sg[ex[j].seg], o.recs[j]) # "ok"}
  IN IF bad # {} THEN LET cl == CHOOSE cl \in bad : TRUE IN cl \o ": " \o glob(cl)
     ELSE IF badr # {} THEN
       LET x == CHOOSE x \in badr : \A y \in badr : x[1] <= y[1]
       IN x[2] \o ": record " \o ToString(x[1]) \o ": " \o RecordClause(x[2], c, ex[x[1]], sg[ex[x[1]].seg], o.recs[x[1]])
     ELSE "ok"

Init == n = 0
Next == n < Len(Cases) /\ n' = n + 1 /\ PrintT("VERDICT " \o ToString(n') \o " " \o Judge(Cases[n']))
Spec == Init /\ [][Next]_n
==============================================================================
