--------------------------- MODULE WeichertPrepTrace ---------------------------
(* Preparations of the real code against WeichertPrep. A case: par, out,      *)
(* cent (thousandths), n, t (quarters of years), kept (arguments as before).  *)
EXTENDS WeichertPrep, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
tvars == <<wvars, k, done>>
C == Cases[k]

TraceInit == k \in 1..Len(Cases) /\ done = FALSE /\ WInit(Cases[k].par)
Follow == /\ ~done /\ left # {} /\ Count(MinOf(left)) /\ UNCHANGED <<k, done>>

Wrong ==
    IF C.out # "ok" THEN {"failed: " \o C.out}
    ELSE (IF C.kept THEN {} ELSE {"arguments modified"})
      \cup (IF Len(C.n) = nb /\ Len(C.t) = nb /\ Len(C.cent) = nb
            THEN {} ELSE {"number of bins"})
      \cup (IF \A j \in 1..(IF Len(C.cent) < nb THEN Len(C.cent) ELSE nb) :
                 C.cent[j] = (10 * BinStart(par, j)) + (5 * par.dm)
            THEN {} ELSE {"magnitudes of the bins"})
      \cup (IF \A j \in 1..(IF Len(C.n) < nb THEN Len(C.n) ELSE nb) : C.n[j] = n[j]
            THEN {} ELSE {"counts"})
      \cup (IF \A j \in 1..(IF Len(C.t) < nb THEN Len(C.t) ELSE nb) :
                 RowOf(par, j) = 0 \/ C.t[j] = 2 * Period(par, j)
            THEN {} ELSE {"periods"})
Verdict ==
    /\ ~done /\ left = {} /\ done' = TRUE /\ UNCHANGED <<wvars, k>>
    /\ IF Wrong = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, Wrong>>))
TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
