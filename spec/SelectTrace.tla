----------------------------- MODULE SelectTrace -----------------------------
(* Selections of the real code against Preprocess. A case: cat (rank of year  *)
(* and magnitude of every event), flags, table (ranks), sel (numbers of the   *)
(* selected events, <<0>> when the vector has another length), out, kept      *)
(* (arguments not modified); stored: <<>> or <<[out, rows]>> of what the      *)
(* stored catalogue contains; entries: tokens of the catalogue entries.       *)
EXTENDS Preprocess, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, over
tvars == <<pvars, k, over>>
C == Cases[k]
Set(q) == {q[i] : i \in DOMAIN q}

TraceInit ==
    /\ k \in 1..Len(Cases) /\ over = FALSE
    /\ cat = C.cat /\ flags = C.flags /\ working = Unflagged(C.flags)
    /\ table = C.table /\ sel = <<>>

Follow == sel = <<>> /\ Select /\ UNCHANGED <<k, over>>

Rows(s) == [i \in 1..Len(s) |-> C.entries[s[i]]]
Verdict ==
    /\ sel # <<>> /\ over' = TRUE
    /\ LET want == sel[1]
           bad ==
             (IF C.out # "ok" THEN {"no selection: " \o C.out}
              ELSE (IF Set(C.sel) \subseteq Set(want) THEN {}
                    ELSE {"events selected which are flagged or incomplete"})
                   \cup (IF Set(want) \subseteq Set(C.sel) THEN {}
                         ELSE {"complete unflagged events not selected"})
                   \cup (IF C.sel = want \/ Set(C.sel) # Set(want) THEN {}
                         ELSE {"order of the selection"}))
             \cup (IF C.kept THEN {} ELSE {"arguments modified"})
             \cup (IF C.stored = <<>> THEN {}
                   ELSE IF C.stored[1].out # "ok"
                   THEN {"catalogue not stored: " \o C.stored[1].out}
                   ELSE IF C.stored[1].rows = Rows(want) THEN {}
                   ELSE {"stored catalogue"})
       IN IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
          ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ UNCHANGED <<pvars, k>>

TraceNext == ~over /\ (Follow \/ Verdict)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
