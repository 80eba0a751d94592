------------------------------- MODULE GKTrace -------------------------------
(* Results of the real Gardner-Knopoff declustering: some order of the        *)
(* specification's steps has to lead to them.                                 *)
EXTENDS GardnerKnopoff, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, over
tvars == <<gkvars, k, over>>
C == Cases[k]

Catalogue(c) == [i \in 1..Len(c.m) |-> [m |-> c.m[i], t |-> c.t[i]]]

WellFormed(c) == /\ c.out = "ok"
                 /\ Len(c.vcl) = Len(c.m) /\ Len(c.flag) = Len(c.m)

TraceInit ==
    /\ k \in 1..Len(Cases) /\ over = FALSE
    /\ GKInit(Catalogue(C), C.dist, C.opt, C.pct)

ObsCluster(e) == {i \in DOMAIN cat : C.vcl[i] = C.vcl[e]}

\* the observed cluster of e is the one the specification forms
Agrees(e) ==
    /\ C.vcl[e] # 0
    /\ ObsCluster(e) = Taken(e) \cup {e}
    /\ C.flag[e] = 0
    /\ \A j \in Taken(e) : C.flag[j] = (IF cat[j].t < cat[e].t THEN -1 ELSE 1)

Reject(why) == /\ over' = TRUE
               /\ PrintT(ToString(<<"REJECT", k, why>>))
               /\ UNCHANGED <<gkvars, k>>

Malformed ==
    ~WellFormed(C) /\ Reject({"no result: " \o C.out})

Follow ==
    /\ WellFormed(C)
    /\ \E e \in todo :
          \/ Skip(e)
          \/ Cluster(e) /\ Agrees(e)
    /\ UNCHANGED <<k, over>>

\* not even the first choice of the implementation is possible
Diverges ==
    /\ WellFormed(C) /\ todo # {}
    /\ \A e \in Largest(todo) :
          vcl[e] = 0 /\ Taken(e) # {} /\ ~Agrees(e)
    /\ LET e == CHOOSE x \in Largest(todo) : TRUE IN
       Reject((IF ObsCluster(e) # Taken(e) \cup {e} \/ C.vcl[e] = 0
               THEN {"members of the cluster of a mainshock"}
               ELSE {"flags of the members of a cluster"}))

Finished ==
    /\ WellFormed(C) /\ GKDone
    /\ LET bad == (IF \A i \in DOMAIN cat : vcl[i] = 0 <=> C.vcl[i] = 0
                   THEN {} ELSE {"events outside clusters"})
             \cup (IF \A i \in DOMAIN cat : flag[i] = C.flag[i]
                   THEN {} ELSE {"flags"})
       IN  IF bad = {}
           THEN /\ over' = TRUE /\ PrintT(ToString(<<"ACCEPT", k>>))
                /\ UNCHANGED <<gkvars, k>>
           ELSE Reject(bad)

TraceNext == ~over /\ (Malformed \/ Follow \/ Diverges \/ Finished)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
