---------------------------- MODULE WorkflowTrace ----------------------------
(* Recorded runs of the real workflow against Workflow. A case: npre, nproc,  *)
(* nsrc, apply, effect, zone (sequences of event numbers), fail, first (the   *)
(* catalogue before the run) and events, in the order they happened:          *)
(* [e |-> "pre", j, cat], [e |-> "proc", s, j, eq, cat], and last             *)
(* [e |-> "end"] or [e |-> "raised", same] (same: the error of the failing    *)
(* job itself).                                                               *)
EXTENDS Workflow, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, over
tvars == <<wvars, k, l, over>>
C == Cases[k]
Ev == C.events
Has(e) == l <= Len(Ev) /\ Ev[l].e = e
Elems(seq) == {seq[i] : i \in DOMAIN seq}

TraceInit ==
    /\ k \in 1..Len(Cases) /\ l = 1 /\ over = FALSE
    /\ WInit(C.npre, C.nproc, C.nsrc, C.apply, C.effect,
             [i \in 1..C.nsrc |-> Elems(C.zone[i])],
             <<C.fail.p, C.fail.s, C.fail.j>>, C.first)

\* a job is observed as it starts
TPre == /\ Pre /\ Has("pre") /\ Ev[l].j = j /\ Ev[l].cat = cat /\ l' = l + 1
TProc == /\ Proc /\ Has("proc") /\ Ev[l].j = j /\ Ev[l].s = s
         /\ Ev[l].eq = Own(s) /\ Ev[l].cat = cat /\ l' = l + 1
Silent == (Turn \/ Select \/ NextSource) /\ UNCHANGED l

Why ==
    IF l > Len(Ev) THEN {"the run stopped without an end"}
    ELSE IF Ev[l].e \notin {"pre", "proc"} THEN
        {"ended (" \o Ev[l].e \o ") where a job had to run"}
    ELSE IF phase = "pre" THEN
        (IF Ev[l].e # "pre" \/ Ev[l].j # j THEN {"order of the preprocessing jobs"}
         ELSE {"catalogue of a preprocessing job"})
    ELSE IF Ev[l].e # "proc" THEN {"preprocessing job during processing"}
    ELSE (IF Ev[l].s # s THEN {"source of the processing job"} ELSE {})
         \cup (IF Ev[l].j # j THEN {"order of the processing jobs"} ELSE {})
         \cup (IF Ev[l].eq # Own(s) THEN {"events of the source"} ELSE {})
         \cup (IF Ev[l].cat # cat THEN {"working catalogue"} ELSE {})

Verdict(bad) == /\ over' = TRUE
                /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
                   ELSE PrintT(ToString(<<"REJECT", k, bad>>))
                /\ UNCHANGED <<wvars, k, l>>

Stuck == /\ ~WDone /\ ~ENABLED TPre /\ ~ENABLED TProc /\ ~ENABLED Silent
         /\ Verdict(Why)

Final ==
    /\ WDone
    /\ Verdict(
        IF l > Len(Ev) THEN {"the run stopped without an end"}
        ELSE IF Ev[l].e \in {"pre", "proc"} THEN
            {IF phase = "done" THEN "job after the end" ELSE "job after a failure"}
        ELSE IF phase = "done" THEN
            (IF Ev[l].e = "end" /\ l = Len(Ev) THEN {}
             ELSE {"failed without a failing job"})
        ELSE IF Ev[l].e # "raised" THEN {"failure not reported"}
        ELSE IF Ev[l].same THEN {} ELSE {"another error than the job's own"})

TraceNext == ~over /\ (((TPre \/ TProc \/ Silent) /\ UNCHANGED <<k, over>>)
                       \/ Stuck \/ Final)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
