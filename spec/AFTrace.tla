------------------------------- MODULE AFTrace -------------------------------
(* Results of the real Afteran declustering against the specification; a case *)
(* lists the orders equal magnitudes allow.                                   *)
EXTENDS Afteran, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, over
tvars == <<afvars, k, over>>
C == Cases[k]

Catalogue(c) == [i \in 1..Len(c.m) |-> [m |-> c.m[i], t |-> c.t[i]]]

IsOrder(c, o) ==
    /\ Len(o) = Len(c.m) /\ {o[i] : i \in 1..Len(o)} = 1..Len(c.m)
    /\ \A i \in 1..(Len(o) - 1) : c.m[o[i]] >= c.m[o[i + 1]]

WellFormed(c) == /\ c.out = "ok"
                 /\ Len(c.vcl) = Len(c.m) /\ Len(c.flag) = Len(c.m)

TraceInit ==
    /\ k \in 1..Len(Cases) /\ over = FALSE
    /\ \E o \in {C.orders[i] : i \in 1..Len(C.orders)} :
         /\ Assert(IsOrder(C, o), "bad order in a case")
         /\ AFInit(Catalogue(C), C.dist, C.opt, C.win, o)

ObsCluster(e) == {i \in DOMAIN cat : C.vcl[i] = C.vcl[e]}

Reject(why) == /\ over' = TRUE
               /\ PrintT(ToString(<<"REJECT", k, why>>))
               /\ UNCHANGED <<afvars, k>>

Malformed == ~WellFormed(C) /\ Reject({"no result: " \o C.out})

Follow == WellFormed(C) /\ AFNext /\ UNCHANGED <<k, over>>

Partition(v) == {{i \in DOMAIN v : v[i] = c} : c \in Labels(v)}

Finished ==
    /\ WellFormed(C) /\ AFDone
    /\ LET bad == (IF Partition(vcl) = Partition(C.vcl)
                   THEN {} ELSE {"clusters"})
             \cup (IF \A i \in DOMAIN cat : flag[i] = C.flag[i]
                   THEN {} ELSE {"flags"})
       IN  IF bad = {}
           THEN /\ over' = TRUE /\ PrintT(ToString(<<"ACCEPT", k>>))
                /\ UNCHANGED <<afvars, k>>
           ELSE Reject(bad)

TraceNext == ~over /\ (Malformed \/ Follow \/ Finished)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
