-------------------------------- MODULE Geo -----------------------------------
(* Positions.  An ellipsoid has the half axes a (equator) and b (pole); lengths *)
(* are big integers (millimetres).  Angles come as cosine and sine in units of  *)
(* 10^-12.  A position is at the latitude, longitude and height h if the point  *)
(* h below it along the vertical of that latitude lies on the ellipsoid, and    *)
(* the vertical there is that of the latitude.                                  *)
EXTENDS Big
One == 4                        \* 1000^4: the unit of angles

(* latitude [c, s], longitude [c, s], height, position [x, y, z]; up to t millimetres along the ground and u upwards *)
Along(lo, p) == Plus(Times(p.x, lo.c), Times(p.y, lo.s))
Across(lo, p) == Minus(Times(p.y, lo.c), Times(p.x, lo.s))
Foot(la, lo, h, p) == [p |-> Minus(Along(lo, p), Times(h, la.c)), z |-> Minus(Shift(p.z, One), Times(h, la.s))]
Within(v, t) == ~Less(t, Abs(v))
OnMeridian(lo, p, t) == Within(Across(lo, p), Shift(Of(t), One)) /\ ~Less(Along(lo, p), Neg(Shift(Of(t), One)))
OnEllipsoid(e, f, u) ==
  LET a2 == Times(e.a, e.a)
      b2 == Times(e.b, e.b)
  IN Within(Minus(Plus(Times(Times(f.p, f.p), b2), Times(Times(f.z, f.z), a2)), Shift(Times(a2, b2), 2 * One)),
            Shift(Times(Times(Times(e.a, a2), Of(2)), Of(u)), 2 * One))
IsVertical(e, la, f, t) ==
  LET a2 == Times(e.a, e.a)
      b2 == Times(e.b, e.b)
  IN Within(Minus(Times(Times(f.p, b2), la.s), Times(Times(f.z, a2), la.c)), Shift(Times(a2, Of(t)), 2 * One))
At(e, la, lo, h, p, t, u) ==
  LET f == Foot(la, lo, h, p)
  IN IF ~OnMeridian(lo, p, t) THEN "another longitude"
     ELSE IF ~IsVertical(e, la, f, t) THEN "another latitude"
     ELSE IF ~OnEllipsoid(e, f, u) THEN "another height"
     ELSE "ok"

(* Directions.  x / y = a, up to t units, where y^2 is given as yy *)
Dot(v, d) == Plus(Plus(Times(v.x, d.x), Times(v.y, d.y)), Times(v.z, d.z))
Ratio(x, yy, a, t) ==
  LET x2 == Shift(Times(x, x), 2 * One)
      lo == Minus(Abs(a), t)
      hi == Plus(Abs(a), t)
  IN /\ (Less(t, Abs(a)) => x.s = a.s /\ ~Less(x2, Times(Times(lo, lo), yy)))
     /\ ~Less(Times(Times(hi, hi), yy), x2)
(* the angle between v and d has the cosine a *)
CosIs(v, d, a, t) == Ratio(Dot(v, d), Times(Dot(v, v), Dot(d, d)), a, t)
(* downwards, in squares of the unit *)
Down(la, lo) == [x |-> Neg(Times(la.c, lo.c)), y |-> Neg(Times(la.c, lo.s)), z |-> Neg(Shift(la.s, One))]
(* v rises against the horizon by an angle with the sine a *)
Climbs(la, lo, v, a, t) == Ratio(Neg(Dot(v, Down(la, lo))), Shift(Dot(v, v), 4 * One), a, t)
(* d looks ahead of the nadir, in the direction of v, by an angle with the sine a *)
Looks(la, lo, v, d, a, t) ==
  LET dn == Down(la, lo)
      vn == Dot(v, dn)
      ahead == Minus(Shift(Dot(d, v), 4 * One), Times(Dot(d, dn), vn))
      level == Minus(Shift(Dot(v, v), 4 * One), Times(vn, vn))
  IN Ratio(ahead, Shift(Times(level, Dot(d, d)), 4 * One), a, t)
(* d has the length a, up to t *)
Long(d, a, t) == ~Less(Dot(d, d), Times(Minus(a, t), Minus(a, t))) /\ ~Less(Times(Plus(a, t), Plus(a, t)), Dot(d, d))
==============================================================================
