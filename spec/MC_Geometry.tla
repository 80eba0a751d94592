----------------------------- MODULE MC_Geometry -----------------------------
(* The containment rule against other characterisations, on small grids.      *)
EXTENDS Geometry, TLC
CONSTANTS G, N

VARIABLES poly, p
vars == <<poly, p>>
Grid == (0..G) \X (0..G)

Init == poly = <<>> /\ p = <<0, 0>>
AddVertex == /\ Len(poly) < N /\ \E q \in Grid : poly' = Append(poly, q)
             /\ UNCHANGED p
Look == /\ Len(poly) >= 3 /\ p = <<0, 0>> /\ \E q \in Grid : p' = q
        /\ UNCHANGED poly
Next == AddVertex \/ Look
Spec == Init /\ [][Next]_vars

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rot(s) == Tail(s) \o <<Head(s)>>
Shift(s, d) == [i \in 1..Len(s) |-> <<s[i][1] + d, s[i][2] - d>>]
Flip(s) == [i \in 1..Len(s) |-> <<s[i][2], s[i][1]>>]

V == Len(poly) >= 3 /\ Valid(poly)
\* neither start, direction, closing point nor repeated points matter
Invariant ==
    Len(poly) >= 3 =>
    /\ Valid(poly) = Valid(Rev(poly)) /\ Valid(poly) = Valid(Rot(poly))
    /\ Valid(poly) = Valid(Flip(poly))
    /\ Valid(poly) = Valid(poly \o <<Head(poly)>>)
    /\ Valid(poly) = Valid(<<Head(poly)>> \o poly)
    /\ V => /\ Inside(p, poly) = Inside(p, Rev(poly))
            /\ Inside(p, poly) = Inside(p, Rot(poly))
            /\ Inside(p, poly) = Inside(p, poly \o <<Head(poly)>>)
            /\ Inside(p, poly) = Inside(<<p[2], p[1]>>, Flip(poly))
            /\ Inside(p, poly) =
                 Inside(<<p[1] + 3, p[2] - 3>>, Shift(poly, 3))
\* inside a triangle: strictly on the same side of its three edges
Triangle ==
    V /\ Len(poly) = 3 =>
        (Inside(p, poly) <=>
            LET s == {Sign(Cross(poly[i], poly[Nxt(poly, i)], p)) : i \in 1..3}
            IN s = {1} \/ s = {-1})
\* vertices and edges are outside
BoundaryOut == V => \A i \in 1..Len(poly) : ~Inside(poly[i], poly)
\* outside the bounding box is outside
Bounded ==
    V /\ Inside(p, poly) =>
        /\ \E i \in 1..Len(poly) : poly[i][1] < p[1]
        /\ \E i \in 1..Len(poly) : poly[i][1] > p[1]
        /\ \E i \in 1..Len(poly) : poly[i][2] < p[2]
        /\ \E i \in 1..Len(poly) : poly[i][2] > p[2]
\* cutting a quadrilateral along an inner diagonal splits its inside
Cut ==
    V /\ Len(poly) = 4 =>
        LET t1 == <<poly[1], poly[2], poly[3]>>
            t2 == <<poly[1], poly[3], poly[4]>>
        IN Len(Ring(poly)) = 4
           /\ Sign(Cross(poly[1], poly[2], poly[3])) # 0
           /\ Sign(Cross(poly[1], poly[2], poly[3])) =
                Sign(Cross(poly[1], poly[3], poly[4]))
           => (Inside(p, poly) <=>
                \/ Inside(p, t1) \/ Inside(p, t2)
                \/ OnSegment(p, poly[1], poly[3]) /\ p # poly[1] /\ p # poly[3])
=============================================================================
