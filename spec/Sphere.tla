-------------------------------- MODULE Sphere --------------------------------
(* Great circle angles, in millionths of a degree, between points given in    *)
(* thousandths of a degree: exact where both points are on one meridian (both *)
(* halves of it) or on the equator, by the law of haversines on whole         *)
(* degrees, and along a parallel for short distances.                         *)
EXTENDS Integers, Sequences, TrigTables

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
(* fixed point product of numbers in 1/100000000, both in 0..100000000 *)
Mul8(a, b) == (a \div 10000) * (b \div 10000)
    + ((a \div 10000) * (b % 10000) + (a % 10000) * (b \div 10000)) \div 10000

(* difference of longitudes as an angle in 0..180000 *)
DLon(a, b) == LET d == (a - b) % 360000 IN Min2(d, 360000 - d)
Pole(p) == Abs(p.lat) = 90000

SamePoint(p, q) == /\ p.lat = q.lat
                   /\ DLon(p.lon, q.lon) = 0 \/ Pole(p)
OnMeridian(p, q) == DLon(p.lon, q.lon) \in {0, 180000} \/ Pole(p) \/ Pole(q)
MeridianAngle(p, q) ==
    IF DLon(p.lon, q.lon) = 0 \/ Pole(p) \/ Pole(q) THEN Abs(p.lat - q.lat)
    ELSE 180000 - Abs(p.lat + q.lat)
OnEquator(p, q) == p.lat = 0 /\ q.lat = 0
OnGrid(p, q) == \A v \in {p.lat, q.lat, p.lon, q.lon} : v % 1000 = 0
Cos(lat) == Cos8[Abs(lat) \div 1000 + 1]
(* squared sine of half the angle *)
Hav(p, q) == Hav8[Abs(p.lat - q.lat) \div 1000 + 1]
             + Mul8(Mul8(Cos(p.lat), Cos(q.lat)), Hav8[DLon(p.lon, q.lon) \div 1000 + 1])
ShortParallel(p, q) == /\ p.lat = q.lat /\ p.lat % 1000 = 0
                       /\ DLon(p.lon, q.lon) <= 1000
ParallelAngle(p, q) ==   \* cosine in 1/1000000, so at most 10^9
    ((Cos(p.lat) \div 100) * DLon(p.lon, q.lon)) \div 1000

(* observed angles: g.a in millionths of a degree, g.h its squared half sine *)
Within(a, b, t) == Abs(a - b) <= t

(* rounding grows near the antipode *)
Tol(a) == IF a > 179000000 THEN 30 ELSE 5
PairBad(p, q, g) ==
    (IF SamePoint(p, q) /\ g.a > 2 THEN {"distance between equal points"} ELSE {})
    \cup (IF ~SamePoint(p, q) /\ g.a <= 0 /\ Abs(p.lat) <= 89000
             /\ Abs(q.lat) <= 89000
             \* (closer to the poles a thousandth of a degree is no distance)
          THEN {"no distance between different points"} ELSE {})
    \cup (IF OnMeridian(p, q) /\ ~Within(g.a, 1000 * MeridianAngle(p, q), Tol(g.a))
          THEN {"distance along a meridian"} ELSE {})
    \cup (IF OnEquator(p, q) /\ ~Within(g.a, 1000 * DLon(p.lon, q.lon), Tol(g.a))
          THEN {"distance along the equator"} ELSE {})
    \cup (IF OnGrid(p, q) THEN IF Within(g.h, Hav(p, q), 40) THEN {}
                               ELSE {"law of haversines"} ELSE {})
    \cup (IF ShortParallel(p, q) THEN IF Within(g.a, ParallelAngle(p, q), 20) THEN {}
                                      ELSE {"distance along a parallel"} ELSE {})
=============================================================================
