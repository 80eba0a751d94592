------------------------------ MODULE MC_Sphere ------------------------------
(* The rules of Sphere agree with one another on all pairs of points of a     *)
(* grid, and are symmetric and unaffected by shifts, reflections and turns.   *)
EXTENDS Sphere
CONSTANT Step
VARIABLES p, q, done
vars == <<p, q, done>>
Lats == {x \in -90000..90000 : x % Step = 0}
Lons == {x \in -180000..180000 : x % Step = 0}
Init == /\ done = FALSE
        /\ p \in [lon : {-180000, 0, 3 * Step}, lat : Lats]
        /\ q \in [lon : Lons, lat : Lats]
Next == ~done /\ done' = TRUE /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars
Near(a, b, t) == Abs(a - b) <= t
Sym == Hav(p, q) = Hav(q, p) /\ DLon(p.lon, q.lon) = DLon(q.lon, p.lon)
Shift(v) == [v EXCEPT !.lon = v.lon + Step]
Mirror(v) == [v EXCEPT !.lat = -v.lat]
Flip(v) == [v EXCEPT !.lon = -v.lon]
Invariant == /\ Hav(Shift(p), Shift(q)) = Hav(p, q)
             /\ Hav(Mirror(p), Mirror(q)) = Hav(p, q)
             /\ Hav(Flip(p), Flip(q)) = Hav(p, q)
             /\ Hav(p, [q EXCEPT !.lon = q.lon + 360000]) = Hav(p, q)
MeridianAgrees == OnMeridian(p, q) =>
    Near(Hav(p, q), Hav8[MeridianAngle(p, q) \div 1000 + 1], 20)
EquatorAgrees == OnEquator(p, q) => Near(Hav(p, q), Hav8[DLon(p.lon, q.lon) \div 1000 + 1], 20)
ZeroOnlyEqual == (Hav(p, q) <= 20) = SamePoint(p, q)
Range == Hav(p, q) \in 0..100000020
=============================================================================
