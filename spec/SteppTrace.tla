------------------------------ MODULE SteppTrace ------------------------------
(* Completeness tables of the real code against Stepp. A case: par (events,   *)
(* dm, dt, tol, lock), out, got (rows [y, m], m in hundredths), kept.         *)
EXTENDS Stepp, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, bad
tvars == <<stvars, k, bad>>
C == Cases[k]

TraceInit == k \in 1..Len(Cases) /\ bad = {} /\ SteppInit(Cases[k].par)

(* behaviours that leave the recorded table are not followed further *)
Follow == /\ bad = {} /\ C.out = "ok" /\ NextBin /\ k' = k
          /\ bad' = IF bin > Len(C.got) THEN {"rows missing"}
                    ELSE (IF rows'[bin].m = C.got[bin].m THEN {} ELSE {"magnitude of a row"})
                    \cup (IF rows'[bin].y = C.got[bin].y THEN {} ELSE {"year of a row"})
Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ SteppDone \/ C.out # "ok")
    /\ LET b == bad \cup (IF C.out = "ok" THEN {} ELSE {"no table: " \o C.out})
                    \cup (IF C.kept THEN {} ELSE {"arguments modified"})
                    \cup (IF bad = {} /\ C.out = "ok" /\ Len(C.got) > nb THEN {"too many rows"} ELSE {}) IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<stvars, k>>
TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
