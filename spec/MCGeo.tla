-------------------------------- MODULE MCGeo ---------------------------------
(* Big integers are integers; and positions made from right-angled triangles:   *)
(* the point of the ellipsoid with the reduced latitude (c, s, n) has the       *)
(* vertical (b c, a s); it is at height 0 and at that latitude, the point k     *)
(* verticals above it at k times the length of the vertical, and at no other    *)
(* latitude, height or longitude.                                               *)
EXTENDS Geo
VARIABLES i, j, k
Ints == {-1000001, -999999, -1001, -1000, -999, -3, 0, 1, 7, 999, 1000, 1001, 46000, 1000000, 30000999}
Tri == {<<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<15, 8, 17>>, <<1, 0, 1>>, <<7, 24, 25>>}
Init == i \in Ints /\ j \in Ints /\ k \in -2 .. 9
Spec == Init /\ [][UNCHANGED <<i, j, k>>]_<<i, j, k>>
Fits == i \in -40000 .. 40000 /\ j \in -40000 .. 40000
Ring == /\ Small(Of(i)) = i /\ Small(Plus(Of(i), Of(j))) = i + j /\ Small(Minus(Of(i), Of(j))) = i - j
        /\ (Fits => Small(Times(Of(i), Of(j))) = i * j)
        /\ (Less(Of(i), Of(j)) <=> i < j)
        /\ Times(Of(i), Plus(Of(j), Of(1))) = Plus(Times(Of(i), Of(j)), Of(i))
        /\ Times(Of(i), Times(Of(j), Of(j))) = Times(Times(Of(i), Of(j)), Of(j))
        /\ Shift(Of(i), 1) = Times(Of(i), Of(1000))
(* sides of a triangle with the hypotenuse 1; 1000^4 has no exact thirteenths: rounded *)
Unit(x, n) == Num(IF x < 0 THEN -1 ELSE 1, [q \in 1 .. 4 |-> 0] \o Of(IF x < 0 THEN -x ELSE x).d)
RECURSIVE DivD(_, _, _, _)
DivD(d, n, m, r) == IF m = 0 THEN <<>> ELSE LET t == r * 1000 + d[m] IN DivD(d, n, m - 1, t % n) \o <<t \div n>>
Div(x, n) == Num(x.s, DivD(x.d, n, Len(x.d), 0))
Angle(t) == [c |-> Div(Unit(t[1], t[3]), t[3]), s |-> Div(Unit(t[2], t[3]), t[3])]
M == 1000000                    \* a kilometre
(* reduced latitude r, latitude l: a : b = l2 r1 : l1 r2 *)
Place(r, l, lon, h) ==          \* on an ellipsoid of a = l2 r1 r3 w f, b = l1 r2 r3 w f
  LET f == 1000 * lon[3] * l[3]
      a == l[2] * r[1] * r[3] * f
      b == l[1] * r[2] * r[3] * f
      p == Plus(Times(Of(l[2] * r[1] * r[1]), Of(f)), Times(Of(h * l[1] * lon[3]), Of(1)))
      z == Plus(Times(Of(l[1] * r[2] * r[2]), Of(f)), Times(Of(h * l[2] * lon[3]), Of(1)))
  IN [e |-> [a |-> Of(a), b |-> Of(b)], h |-> Of(h * l[3] * lon[3]),
      p |-> [x |-> Div(Times(p, Of(lon[1])), lon[3]), y |-> Div(Times(p, Of(lon[2])), lon[3]), z |-> z]]
Pairs == {<<<<4, 3, 5>>, <<3, 4, 5>>>>, <<<<12, 5, 13>>, <<3, 4, 5>>>>, <<<<4, 3, 5>>, <<5, 12, 13>>>>, <<<<15, 8, 17>>, <<8, 15, 17>>>>, <<<<3, 4, 5>>, <<3, 4, 5>>>>}
Positions == i = 0 /\ j = 0 => \A q \in Pairs, lon \in {<<3, 4, 5>>, <<-4, 3, 5>>, <<1, 0, 1>>, <<0, -1, 1>>} :
     LET o == Place(q[1], q[2], lon, k * 100)
         la == Angle(q[2])
         lo == Angle(lon)
     IN /\ At(o.e, la, lo, o.h, o.p, 2, 2) = "ok"
        /\ At(o.e, la, lo, Plus(o.h, Of(40)), o.p, 2, 2) # "ok"
        /\ At(o.e, Angle(<<20, 21, 29>>), lo, o.h, o.p, 2, 2) = "another latitude"
        /\ At(o.e, [c |-> la.c, s |-> Neg(la.s)], lo, o.h, o.p, 2, 2) = "another latitude"
        /\ At(o.e, la, Angle(<<20, 21, 29>>), o.h, o.p, 2, 2) = "another longitude"
        /\ At(o.e, la, [c |-> Neg(lo.c), s |-> Neg(lo.s)], o.h, o.p, 2, 2) = "another longitude"
(* in the plane of a great circle through (1, 0, 0): a look down by a triangle q, a velocity that rises by a triangle w *)
U(t) == Div(Unit(t, 1), 1)
Directions == i = 0 /\ j = 0 /\ k = 0 => \A q \in Tri, w \in Tri, side \in {-1, 1}, up \in {-1, 1}, r \in {<<1, 0, 1>>, <<3, 4, 5>>} :
     LET d == [x |-> Of(-q[1]), y |-> Of(side * q[2] * r[1]), z |-> Of(side * q[2] * r[2])]     \* r: the heading
         dd == [d EXCEPT !.x = Of(-q[1] * r[3])]
         v == [x |-> Of(up * w[2] * r[3]), y |-> Of(w[1] * r[1]), z |-> Of(w[1] * r[2])]
         la == [c |-> U(1), s |-> U(0)]
         lo == [c |-> U(1), s |-> U(0)]
         n == q[3] * w[3]
         cos == Div(Times(Of(side * q[2] * w[1] - up * q[1] * w[2]), U(1)), n)
         fine == Of(1000)
     IN /\ CosIs(v, dd, cos, fine)
        /\ ~CosIs(v, dd, Plus(cos, Of(1000000)), fine)
        /\ Looks(la, lo, v, dd, Div(Unit(side * q[2], 1), q[3]), fine) \/ w[1] = 0
        /\ (q[2] # 0 /\ w[1] # 0 => ~Looks(la, lo, v, dd, Div(Unit(-side * q[2], 1), q[3]), fine))
        /\ Climbs(la, lo, v, Div(Unit(up * w[2], 1), w[3]), fine)
        /\ (w[2] # 0 => ~Climbs(la, lo, v, Div(Unit(-up * w[2], 1), w[3]), fine))
        /\ Long(dd, Of(q[3] * r[3]), Of(0)) /\ ~Long(dd, Of(q[3] * r[3] + 2), Of(1))
===============================================================================
