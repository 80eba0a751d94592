------------------------------ MODULE Geometry ------------------------------
(* Polygons with integer coordinates: validity and strict containment.        *)
EXTENDS Integers, Sequences, FiniteSets

Cross(o, a, b) ==
    (a[1] - o[1]) * (b[2] - o[2]) - (a[2] - o[2]) * (b[1] - o[1])
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* p on the closed segment a b
OnSegment(p, a, b) ==
    /\ Cross(a, b, p) = 0
    /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
    /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])

\* closed segments a b and c d have a common point
Meet(a, b, c, d) ==
    \/ OnSegment(a, c, d) \/ OnSegment(b, c, d)
    \/ OnSegment(c, a, b) \/ OnSegment(d, a, b)
    \/ /\ Sign(Cross(a, b, c)) * Sign(Cross(a, b, d)) < 0
       /\ Sign(Cross(c, d, a)) * Sign(Cross(c, d, b)) < 0

\* the ring without repeated consecutive points (closing point included)
RECURSIVE Dedup(_)
Dedup(ps) ==
    IF Len(ps) <= 1 THEN ps
    ELSE IF ps[1] = ps[2] THEN Dedup(Tail(ps))
    ELSE <<ps[1]>> \o Dedup(Tail(ps))
Ring(ps) ==
    LET d == Dedup(ps) IN
    IF Len(d) > 1 /\ d[1] = d[Len(d)] THEN SubSeq(d, 1, Len(d) - 1) ELSE d

Nxt(r, i) == IF i = Len(r) THEN 1 ELSE i + 1

\* a simple ring: edges meet only at the common vertex of consecutive ones
ValidRing(r) ==
    /\ Len(r) >= 3
    /\ \A i \in 1..Len(r) : \A j \in (i + 1)..Len(r) :
        LET a == r[i]  b == r[Nxt(r, i)]
            c == r[j]  d == r[Nxt(r, j)]
        IN IF j = i + 1
           THEN ~OnSegment(d, a, b) /\ ~OnSegment(a, c, d)
           ELSE IF Nxt(r, j) = i
           THEN ~OnSegment(c, a, b) /\ ~OnSegment(b, c, d)
           ELSE ~Meet(a, b, c, d)
Valid(ps) == ValidRing(Ring(ps))

OnRing(p, r) == \E i \in 1..Len(r) : OnSegment(p, r[i], r[Nxt(r, i)])

\* edges crossed by the ray from p to the right
Crossings(p, r) ==
    {i \in 1..Len(r) :
        LET a == r[i]
            b == r[Nxt(r, i)]
        IN \/ a[2] <= p[2] /\ p[2] < b[2] /\ Cross(a, b, p) > 0
           \/ b[2] <= p[2] /\ p[2] < a[2] /\ Cross(a, b, p) < 0}
InsideRing(p, r) == ~OnRing(p, r) /\ Cardinality(Crossings(p, r)) % 2 = 1
Inside(p, ps) == InsideRing(p, Ring(ps))
=============================================================================
