---------------------------- MODULE WeichertRunTrace ----------------------------
(* The recurrence analysis with the Weichert algorithm: the counts and        *)
(* periods of WeichertPrep, estimated as by Weichert. A case: par, o.         *)
EXTENDS WeichertPrep, TLC, Json, IOUtils
W == INSTANCE WeichertOutcome

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
tvars == <<wvars, k, done>>
C == Cases[k]

TraceInit == k \in 1..Len(Cases) /\ done = FALSE /\ WInit(Cases[k].par)
Follow == /\ ~done /\ left # {} /\ Count(MinOf(left)) /\ UNCHANGED <<k, done>>
Verdict ==
    /\ ~done /\ left = {} /\ done' = TRUE /\ UNCHANGED <<wvars, k>>
    /\ LET b == W!WrongOutcome([n |-> n, t |-> [j \in 1..nb |-> Period(par, j)]], C.o) IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
