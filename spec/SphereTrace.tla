----------------------------- MODULE SphereTrace -----------------------------
(* Distances computed by the real code against Sphere. A case: p, q (points), *)
(* got (matrix: per point of p and q [a, h], the angle on the given sphere in *)
(* millionths of a degree and its squared half sine in 1/100000000), out,     *)
(* kept, shape; same (angle matrices of the same pairs after symmetry,        *)
(* shifts, reflections, whole turns, in radians, on other spheres, one by     *)
(* one).                                                                      *)
EXTENDS Sphere, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, bad
tvars == <<k, i, bad>>
C == Cases[k]
RowBad(r) == UNION {PairBad(C.p[r], C.q[j], C.got[r][j]) : j \in 1..Len(C.q)}
    \cup UNION {IF \A j \in 1..Len(C.q) :
                     Within(C.same[v].got[r][j], C.got[r][j].a, Tol(C.got[r][j].a))
                THEN {} ELSE {C.same[v].name} : v \in 1..Len(C.same)}

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ bad = {}
Ready == C.out = "ok" /\ C.shape
Row == /\ bad = {} /\ Ready /\ i <= Len(C.p)
       /\ bad' = RowBad(i) /\ i' = i + 1 /\ k' = k
Verdict ==
    /\ bad # {"-"}
    /\ IF bad # {} \/ ~Ready THEN TRUE ELSE i > Len(C.p)
    /\ LET b == bad \cup (IF C.out = "ok" THEN {} ELSE {"no distance: " \o C.out})
                    \cup (IF C.shape \/ C.out # "ok" THEN {} ELSE {"not one distance per pair"})
                    \cup (IF C.kept THEN {} ELSE {"arguments modified"}) IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i>>
TraceNext == Row \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
