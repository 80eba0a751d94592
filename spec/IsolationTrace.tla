--------------------------- MODULE IsolationTrace ---------------------------
(* Results of real runs against Isolation. A case: obs, a sequence of         *)
(* [key, result, run]; the observations of all runs with one configuration.   *)
EXTENDS Isolation, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, over
tvars == <<memo, k, l, over>>
Ob == Cases[k].obs

TraceInit == k \in 1..Len(Cases) /\ l = 1 /\ over = FALSE /\ MInit

Observe == /\ l <= Len(Ob)
           /\ Learn(Ob[l].key, Ob[l].result) \/ Confirm(Ob[l].key, Ob[l].result)
           /\ l' = l + 1 /\ UNCHANGED <<k, over>>

Verdict ==
    /\ IF l > Len(Ob) THEN TRUE
       ELSE Ob[l].key \in KnownKeys /\ ResultOf(Ob[l].key) # Ob[l].result
    /\ over' = TRUE /\ UNCHANGED <<memo, k, l>>
    /\ IF l > Len(Ob) THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k,
             {"another result for the same source in " \o Ob[l].run}>>))

TraceNext == ~over /\ (Observe \/ Verdict)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
