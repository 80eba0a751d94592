---------------------------- MODULE AssemblyTrace ----------------------------
(* Pipelines built by the real builders against Assembly. A case: kind, cfg,  *)
(* jobs (names of the jobs of the pipeline), out ("ok" or what was raised),   *)
(* untouched (configuration not modified), own (the pipeline shares no job    *)
(* list with another one).                                                    *)
EXTENDS Assembly, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, over
tvars == <<bvars, k, over>>
C == Cases[k]

TraceInit == /\ k \in 1..Len(Cases) /\ over = FALSE
             /\ BuildInit(C.kind, C.cfg)

Follow == ~BuildDone /\ BuildNext /\ UNCHANGED <<k, over>>

Verdict ==
    /\ BuildDone /\ over' = TRUE
    /\ LET bad ==
           (IF bpc = "built"
            THEN (IF C.out # "ok" THEN {"not built: " \o C.out}
                  ELSE IF C.jobs # jobs THEN {"jobs of the pipeline"} ELSE {})
            ELSE IF C.out # "raise:RuntimeError"
                 THEN {"unknown job not refused: " \o C.out} ELSE {})
           \cup (IF C.untouched THEN {} ELSE {"configuration modified"})
           \cup (IF C.own THEN {} ELSE {"pipelines share their jobs"})
       IN IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
          ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ UNCHANGED <<bvars, k>>

TraceNext == ~over /\ (Follow \/ Verdict)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
