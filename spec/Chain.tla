-------------------------------- MODULE Chain --------------------------------
(* The SAR processing chain: from the bursts of an L1A product to the records  *)
(* of the L1B/L1BS products.  Geometry is one dimensional: positions along the *)
(* track in units, P.spacing units between two surfaces; a burst sees the      *)
(* surfaces within P.half units of its nadir.                                  *)
(*                                                                             *)
(*   P  : [spacing, half, gap, min, looks]                                     *)
(*   rs : sequence of records [pos, t, use]; use is FALSE if the record is     *)
(*        invalid or outside of the region of interest                         *)
(*                                                                             *)
(* First part: what the products have to be (Expected), per segment.           *)
(* Second part: how the chain gets there, one loop iteration per step.         *)
(* MCChain checks that the second part implies the first.                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a < b THEN a ELSE b

------------------------------------------------------------------------------
(* usable records in reading order, cut into segments at gaps *)
Usable(rs) == SelectSeq([i \in 1 .. Len(rs) |-> i], LAMBDA i : rs[i].use)

RECURSIVE Cut(_, _, _, _, _)
Cut(us, j, cur, acc, ctx) ==          \* ctx = <<rs, P>>
  IF j > Len(us) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF cur = <<>> \/ ctx[1][us[j]].t - ctx[1][cur[Len(cur)]].t < ctx[2].gap
       THEN Cut(us, j + 1, Append(cur, us[j]), acc, ctx)
       ELSE Cut(us, j + 1, <<us[j]>>, Append(acc, cur), ctx)
Segments(rs, P) == Cut(Usable(rs), 1, <<>>, <<>>, <<rs, P>>)

First(rs, seg) == rs[seg[1]].pos
Extent(rs, seg) == Max({rs[seg[j]].pos : j \in DOMAIN seg}) - First(rs, seg)
NSurf(rs, seg, P) == Extent(rs, seg) \div P.spacing + 1
SurfPos(rs, seg, k, P) == First(rs, seg) + k * P.spacing

(* the bursts of the segment that see position s, in order *)
Seen(rs, seg, s, P) == SelectSeq(seg, LAMBDA i : Abs(rs[i].pos - s) <= P.half)

(* at most P.looks of them, the ones that look closest to nadir *)
Trim(rs, st, s, P) ==
  IF Len(st) <= P.looks THEN st
  ELSE SelectSeq(st, LAMBDA i : Cardinality({j \in DOMAIN st : Abs(rs[st[j]].pos - s) < Abs(rs[i].pos - s)
                                                 \/ (Abs(rs[st[j]].pos - s) = Abs(rs[i].pos - s) /\ st[j] < i)}) < P.looks)
Stack(rs, seg, s, P) == Trim(rs, Seen(rs, seg, s, P), s, P)

(* one surface [seg, k, pos, st]; only those with half of the looks are kept *)
Surf(rs, g, seg, k, P) ==
  [seg |-> g, k |-> k, pos |-> SurfPos(rs, seg, k, P), st |-> Stack(rs, seg, SurfPos(rs, seg, k, P), P)]
Kept(s, P) == Len(s.st) >= P.looks \div 2

SegOut(rs, g, seg, P) ==
  SelectSeq([k \in 1 .. NSurf(rs, seg, P) |-> Surf(rs, g, seg, k - 1, P)], LAMBDA s : Kept(s, P))

Expected(rs, P) == LET sg == TLCEval(Segments(rs, P)) IN FlattenSeq([g \in DOMAIN sg |-> SegOut(rs, g, sg[g], P)])

(* a file without a gap needs the minimum number of surfaces *)
Insufficient(rs, P) ==
  LET sg == Segments(rs, P) IN Len(sg) = 0 \/ (Len(sg) = 1 /\ NSurf(rs, sg[1], P) < P.min)

(* number of surfaces created before this one: its counter in the product *)
Counter(rs, P, s) ==
  LET sg == Segments(rs, P)
  IN s.k + FoldFunctionOnSet(LAMBDA x, y : x + y, 0, [g \in DOMAIN sg |-> NSurf(rs, sg[g], P)], 1 .. s.seg - 1)

(* index in the segment of the first burst at or beyond the surface: the surface lies between it and the one before *)
Bracket(rs, seg, s) == CHOOSE j \in DOMAIN seg : rs[seg[j]].pos >= s /\ \A m \in 1 .. j - 1 : rs[seg[m]].pos < s

(* the burst of the stack that looks closest to nadir *)
Closest(rs, st, s) == CHOOSE i \in ToSet(st) : \A j \in ToSet(st) : Abs(rs[i].pos - s) <= Abs(rs[j].pos - s)

------------------------------------------------------------------------------
(* Surface focusing: the first surface behind which the track departs from the  *)
(* target T after it came closer is moved onto T; nothing else moves.           *)
Dist(rs, seg, k, P, T) == Abs(SurfPos(rs, seg, k, P) - T)
Passes(rs, seg, P, T) ==
  {k \in 1 .. NSurf(rs, seg, P) - 2 : Dist(rs, seg, k - 1, P, T) > Dist(rs, seg, k, P, T)
                                     /\ Dist(rs, seg, k, P, T) < Dist(rs, seg, k + 1, P, T)}
(* the positions of the surfaces of segment g *)
FocusAll(rs, g, seg, P, T, fs) ==
  LET k0 == IF fs # {} /\ g = Min(fs) THEN Min(Passes(rs, seg, P, T)) ELSE -1
  IN TLCEval([k \in 1 .. NSurf(rs, seg, P) |-> IF k - 1 = k0 THEN T ELSE SurfPos(rs, seg, k - 1, P)])
(* a burst has P.pulses beams: if it sees more surfaces, the first of them go without *)
FocusStack(rs, seg, ps, k, P) ==
  LET beam(i) == Cardinality({j \in k + 1 .. MinOf(k + P.pulses + 1, Len(ps)) : Abs(rs[i].pos - ps[j]) <= P.half}) < P.pulses
  IN Trim(rs, SelectSeq(Seen(rs, seg, ps[k], P), beam), ps[k], P)
FocusOut(rs, g, seg, P, T, fs) ==
  LET ps == FocusAll(rs, g, seg, P, T, fs)
  IN SelectSeq([k \in 1 .. Len(ps) |-> [seg |-> g, k |-> k - 1, pos |-> ps[k], st |-> FocusStack(rs, seg, ps, k, P)]],
               LAMBDA s : Kept(s, P))
ExpectedFocus(rs, P, T) ==
  LET sg == TLCEval(Segments(rs, P))
      fs == TLCEval({g \in DOMAIN sg : Passes(rs, sg[g], P, T) # {}})
  IN FlattenSeq([g \in DOMAIN sg |-> FocusOut(rs, g, sg[g], P, T, fs)])

------------------------------------------------------------------------------
(* the chain itself *)
Start == [i |-> 1, bq |-> <<>>, done |-> {}, sq |-> <<>>, out |-> <<>>, mode |-> "read", pend |-> 0,
          sproc |-> FALSE, gapf |-> FALSE, prev |-> 0, seg |-> 1, lastk |-> -1, cnt |-> 0, prog |-> 0,
          run |-> TRUE, status |-> "none"]

NewSurf(rs, c, b, first, P) ==        \* the surface made when burst b arrives: a set with at most one element
  IF first THEN {[seg |-> c.seg, k |-> 0, pos |-> rs[b].pos, st |-> <<>>]}
  ELSE LET l == c.sq[Len(c.sq)]
       IN IF rs[b].pos >= l.pos + P.spacing
          THEN {[seg |-> c.seg, k |-> l.k + 1, pos |-> l.pos + P.spacing, st |-> <<>>]} ELSE {}

(* bursts are handed out to the surfaces in the queue, oldest burst first, until one does not see the working surface *)
RECURSIVE HandOut(_, _, _, _)
HandOut(rs, c, j, P) ==
  IF j > Len(c.bq) THEN c
  ELSE LET b == c.bq[j]
       IN IF b \in c.done THEN HandOut(rs, c, j + 1, P)
          ELSE LET seesW == Abs(rs[b].pos - c.sq[1].pos) <= P.half
                   sq2 == [m \in DOMAIN c.sq |-> IF Abs(rs[b].pos - c.sq[m].pos) <= P.half
                                                 THEN [c.sq[m] EXCEPT !.st = Append(@, b)] ELSE c.sq[m]]
                   c2 == [c EXCEPT !.sq = sq2, !.done = @ \cup {b}]
               IN IF seesW THEN HandOut(rs, c2, j + 1, P) ELSE c2

DropOld(bq, b) == SelectSeq(bq, LAMBDA x : x >= b)

Work(rs, c0, P) ==
  LET c == HandOut(rs, [c0 EXCEPT !.sproc = TRUE], 1, P)
      w == c.sq[1]
      s == [w EXCEPT !.st = Trim(rs, w.st, w.pos, P)]
  IN IF Kept(s, P) THEN [c EXCEPT !.out = Append(@, s), !.sq = Tail(@), !.bq = DropOld(@, Head(w.st \o <<0>>))]
     ELSE [c EXCEPT !.sq = Tail(@)]

Settle(rs, c, P) ==
  LET d == IF c.sproc \/ Len(c.sq) >= P.min \/ c.mode = "gap" THEN Work(rs, c, P) ELSE c
  IN IF d.sq # <<>> THEN d
     ELSE IF d.mode = "gap" THEN [d EXCEPT !.mode = "resume", !.sproc = FALSE]
     ELSE [d EXCEPT !.run = FALSE, !.status = IF d.status = "none" THEN "ok" ELSE d.status]

TakeBurst(rs, c, b, first, P) ==
  LET c1 == [c EXCEPT !.bq = Append(@, b), !.prev = rs[b].t]
      n == NewSurf(rs, c1, b, first, P)
  IN IF n = {} THEN c1
     ELSE Settle(rs, [c1 EXCEPT !.sq = Append(@, CHOOSE x \in n : TRUE), !.cnt = @ + 1], P)

Iterate(rs, c, P) ==
  CASE c.mode = "gap" -> Settle(rs, c, P)
    [] c.mode = "resume" -> TakeBurst(rs, [c EXCEPT !.mode = "read", !.seg = @ + 1], c.pend, TRUE, P)
    [] c.mode = "read" /\ c.i > Len(rs) ->
         IF ~c.sproc /\ ~c.gapf THEN [c EXCEPT !.run = FALSE, !.status = "insufficient"]
         ELSE Settle(rs, [c EXCEPT !.sproc = TRUE], P)
    [] c.mode = "read" /\ c.i <= Len(rs) ->
         LET d == [c EXCEPT !.i = @ + 1, !.prog = @ + 1]
             b == c.i
         IN IF ~rs[b].use THEN d
            ELSE IF c.bq = <<>> /\ c.cnt = 0 THEN TakeBurst(rs, d, b, TRUE, P)
            ELSE IF rs[b].t - c.prev < P.gap THEN TakeBurst(rs, d, b, FALSE, P)
            ELSE Settle(rs, [d EXCEPT !.mode = "gap", !.gapf = TRUE, !.pend = b], P)
==============================================================================
