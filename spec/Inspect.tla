------------------------------- MODULE Inspect --------------------------------
(* Looking at products: what the figures of an inspector or a comparator show.  *)
(*   p : [vars, wave, lat, lon]: vars: name -> [d: number of dimensions, m: rows *)
(*       of values (one row if d = 1)], wave: the waveforms, records by samples  *)
(*   Missing values are Missing; they do not count for limits.                   *)
(* A figure is [name, items]; an item [k, x, m, lo, hi]: an image (k = "image")  *)
(* of the rows m between the limits, a line of the values m[1] over x, marks, .. *)
(* A limit that is not given is NoLimit; an index that is not, is -1.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Missing == 999999
NoLimit == 888888

Values(m) == UNION {{m[i][j] : j \in DOMAIN m[i]} : i \in DOMAIN m} \ {Missing}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
Lo(l, m) == IF l # NoLimit THEN l ELSE Least(Values(m))
Hi(l, m) == IF l # NoLimit THEN l ELSE Most(Values(m))
Ramp(n) == [i \in 1 .. n |-> i - 1]
Column(m, j) == [i \in DOMAIN m |-> m[i][j]]

Item(k, x, m, lo, hi) == [k |-> k, x |-> x, m |-> m, lo |-> lo, hi |-> hi]
Image(m, lo, hi) == Item("image", <<>>, m, Lo(lo, m), Hi(hi, m))
LineOf(x, y) == Item("line", x, <<y>>, 0, 0)
Mark(k, i) == Item(k, <<i>>, <<>>, 0, 0)
(* a histogram needs two different limits *)
Hist(m, lo, hi) == LET a == lo  b == IF hi = lo THEN lo + 1 ELSE hi IN Item("hist", <<>>, m, a, b)

Figure(name, items) == [out |-> "figure", name |-> name, items |-> items]
Said(what) == [out |-> what, name |-> "", items |-> {}]
(* what a notebook offers to look at *)
Images(p) == {z \in DOMAIN p.vars : p.vars[z].d = 2}
IsImage(p, z) == z \in DOMAIN p.vars /\ p.vars[z].d = 2


Suffix(x, y) == (IF x # -1 THEN "-x-" \o ToString(x) ELSE "") \o (IF y # -1 THEN "-y-" \o ToString(y) ELSE "")

(* a call: [op, z, x, y, lo, hi, i, j] *)
Shown(p, c) ==
  CASE c.op = "waveform_im" -> Figure("fig-waveform-im.png", {Image(p.wave, c.lo, c.hi)})
    [] c.op = "waveform_hist" -> Figure("fig-waveform-hist.png", {Hist(p.wave, Lo(c.lo, p.wave), Hi(c.hi, p.wave))})
    [] c.op = "waveform_line" ->        \* of record i (the first one if not given), and of a reference j
         LET i == IF c.i = -1 THEN 0 ELSE c.i
             l(k) == LineOf(Ramp(Len(p.wave[1])), p.wave[k + 1])
         IN Figure("fig-waveform-x-" \o ToString(i) \o ".png", {l(i)} \cup (IF c.j = -1 THEN {} ELSE {l(c.j)}))
    [] c.op = "waveform_3d_surf" -> Figure("fig-waveform-3d-surf.png", {Item("surface", <<>>, p.wave, 0, 0)})
    [] c.op = "locations" -> Figure("fig-locations.html", {Item("points", p.lon, <<p.lat>>, 0, 0)})
    [] c.op = "im" ->
         IF c.z = "" THEN Said("refused")
         ELSE IF ~IsImage(p, c.z) THEN Said("message")
         ELSE Figure("fig-" \o c.z \o ".png", {Image(p.vars[c.z].m, c.lo, c.hi)})
    [] c.op = "line" ->                 \* y over x, or over the index
         IF c.x = "" \/ c.y = "" THEN Said("refused")
         ELSE LET v == p.vars[c.y].m[1]
                  x == IF c.x = "index" THEN Ramp(Len(v)) ELSE p.vars[c.x].m[1]
              IN Figure("fig-" \o c.x \o "-over-" \o c.y \o ".png", {LineOf(x, v)})
    [] c.op = "im_line" ->              \* with the values of row j above and those of column i beside it
         IF c.z = "" THEN Said("refused")
         ELSE IF ~IsImage(p, c.z) THEN Said("message")
         ELSE LET m == p.vars[c.z].m
              IN Figure("fig-" \o c.z \o Suffix(c.i, c.j) \o ".png",
                        {Image(m, c.lo, c.hi)}
                        \cup (IF c.j = -1 THEN {} ELSE {LineOf(Ramp(Len(m[1])), m[c.j + 1]), Mark("row", c.j)})
                        \cup (IF c.i = -1 THEN {} ELSE {LineOf(Column(m, c.i + 1), Ramp(Len(m))), Mark("column", c.i)}))

(* two products p and q *)
Delta(p, q) == [i \in DOMAIN p.wave |-> [j \in DOMAIN p.wave[i] |->
                 IF p.wave[i][j] = Missing \/ q.wave[i][j] = Missing THEN Missing ELSE p.wave[i][j] - q.wave[i][j]]]
Comparable(p, q) == Len(p.wave) = Len(q.wave) /\ Len(p.wave[1]) = Len(q.wave[1])
Compared(p, q, c) ==
  LET d == Delta(p, q)
      a == Lo(c.lo, d)
      b == Hi(c.hi, d)
      both == p.wave \o q.wave
      l == Lo(c.lo, both)
      h == LET t == Hi(c.hi, both) IN IF l = t THEN l + 1 ELSE t
  IN CASE c.op = "waveforms_delta_im" -> Figure("fig-waveform_delta-im.png", {Image(d, c.lo, c.hi)})
       [] c.op = "waveforms_delta_hist" -> Figure("fig-waveforms_delta-hist.png", {Hist(d, a, b)})
       [] c.op = "waveforms_hist" -> Figure("fig-waveforms-hist.png", {Hist(p.wave, l, h), Hist(q.wave, l, h)})
       [] c.op = "waveforms_scatter" -> Figure("fig-waveforms-scatter.png", {Item("pairs", <<>>, p.wave, l, h), Item("against", <<>>, q.wave, l, h)})
       [] c.op = "waveforms_hexbin" -> Figure("fig-waveforms-hexbin.png", {Item("pairs", <<>>, p.wave, l, h), Item("against", <<>>, q.wave, l, h)})
       [] c.op = "locations" -> Figure("fig-locations.html", {Item("points", p.lon, <<p.lat>>, 0, 0), Item("points", q.lon, <<q.lat>>, 0, 0)})

(* where figures go: a writer is [path, format]; formats "" is derived from the path *)
Kind(ext, format) == IF format # "" THEN format ELSE IF ext = "" THEN "dir" ELSE ext
==============================================================================
