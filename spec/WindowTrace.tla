----------------------------- MODULE WindowTrace -----------------------------
(* Windows computed by the real code against the published ones. A case: opt, *)
(* ms (per event: h, hundredths of its magnitude rounded down, and off, the   *)
(* magnitude is above h), got (per event: s in metres, t in 1/10000 day, both *)
(* rounded), out, kept (magnitudes not modified), shape (one pair per event). *)
EXTENDS Windows, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, bad
tvars == <<k, i, bad>>
C == Cases[k]

Near(x, v) == x \in (v - 1)..(v + 1)
(* On the grid the value of the table; between two magnitudes of the grid     *)
(* something between their windows; just below the change of formula the      *)
(* window continues the growth of the last step.                              *)
SpaceOK(m, s) == IF m.off THEN s \in (Space(C.opt, m.h) - 1)..(Space(C.opt, m.h + 1) + 1)
                 ELSE Near(s, Space(C.opt, m.h))
Upper(h) == IF h = 649 /\ C.opt # "Uhrhammer"
            THEN 2 * Time4(C.opt, 649) - Time4(C.opt, 648) + 3000
            ELSE Time4(C.opt, h + 1)
TimeOK(m, t) == IF m.off THEN t \in (Time4(C.opt, m.h) - 1)..(Upper(m.h) + 1)
                ELSE Near(t, Time4(C.opt, m.h))

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ bad = {}
Event == /\ bad = {} /\ C.out = "ok" /\ C.shape /\ i <= Len(C.ms)
         /\ bad' = (IF SpaceOK(C.ms[i], C.got[i].s) THEN {} ELSE {"space window"})
              \cup (IF TimeOK(C.ms[i], C.got[i].t) THEN {} ELSE {"time window"})
         /\ i' = i + 1 /\ k' = k
Verdict ==
    /\ bad # {"-"}
    /\ IF bad # {} \/ C.out # "ok" \/ ~C.shape THEN TRUE ELSE i > Len(C.ms)
    /\ LET b == bad \cup (IF C.out = "ok" THEN {} ELSE {"no windows: " \o C.out})
                    \cup (IF C.shape \/ C.out # "ok" THEN {} ELSE {"not one window per event"})
                    \cup (IF C.kept THEN {} ELSE {"magnitudes modified"}) IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i>>
TraceNext == Event \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
