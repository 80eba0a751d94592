---------------------------- MODULE CalendarTrace ----------------------------
(* Dates converted by the real code against Calendar. A case: kind, days      *)
(* (per element [y, m, d, t], t in 1/10000 s), got (per element:              *)
(*  "decimal": thousandths of a day of the 365 day year after 1 January of y; *)
(*  "julian": [n, f], whole days after the epoch (from midnight) and 1/10000  *)
(*  s), out, kept, shape.                                                     *)
EXTENDS Calendar, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, bad
tvars == <<k, i, bad>>
C == Cases[k]
Close(a, b, t) == a - b <= t /\ b - a <= t

DayOK(x, g) ==
    IF C.kind = "decimal" THEN Close(g.n, 1000 * DayCount(x.m, x.d), 1)
    ELSE LET n == JulianDay(x.y, x.m, x.d) IN
         \/ g.n = n /\ Close(g.f, x.t, 20)
         \/ g.n = n - 1 /\ Close(g.f - 864000000, x.t, 20)

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ bad = {}
Ready == C.out = "ok" /\ C.shape
Element == /\ bad = {} /\ Ready /\ i <= Len(C.days)
           /\ bad' = IF DayOK(C.days[i], C.got[i]) THEN {} ELSE {C.kind \o " date"}
           /\ i' = i + 1 /\ k' = k
Verdict ==
    /\ bad # {"-"}
    /\ IF bad # {} \/ ~Ready THEN TRUE ELSE i > Len(C.days)
    /\ LET b == bad \cup (IF C.out = "ok" THEN {} ELSE {"no date: " \o C.out})
                    \cup (IF C.shape \/ C.out # "ok" THEN {} ELSE {"not one date per element"})
                    \cup (IF C.kept THEN {} ELSE {"arguments modified"}) IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i>>
TraceNext == Element \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
