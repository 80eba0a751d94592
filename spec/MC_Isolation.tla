---------------------------- MODULE MC_Isolation ----------------------------
(* Processing of sources one after another, in any order, on catalogues which *)
(* differ elsewhere: every run confirms what the first one has shown.         *)
EXTENDS Isolation, TLC
CONSTANTS Sources, Events, Runs

VARIABLES zone,   \* the events inside each source
          est,    \* what an estimation gives for a set of events (0: nothing)
          cat,    \* the catalogue of this run
          val,    \* parameters of the sources in this run (0: as read)
          todo,   \* sources not processed in this run
          cur,    \* source being processed, with its events: <<s, own>>
          run
vars == <<memo, zone, est, cat, val, todo, cur, run>>

Idle == <<"", {}>>
Init ==
    /\ MInit /\ run = 1 /\ cur = Idle
    /\ zone \in [Sources -> SUBSET Events]
    /\ est \in {[x \in SUBSET Events |-> Cardinality(x)],
                [x \in SUBSET Events |-> IF Cardinality(x) < 2 THEN 0 ELSE 7]}
    /\ cat \in SUBSET Events
    /\ val = [s \in Sources |-> 0]
    /\ todo \in SUBSET Sources

Pick(s) ==
    /\ cur = Idle /\ s \in todo
    /\ cur' = <<s, cat \cap zone[s]>>
    /\ todo' = todo \ {s}
    /\ UNCHANGED <<memo, zone, est, cat, val, run>>

Estimate ==
    /\ cur # Idle
    /\ val' = [val EXCEPT ![cur[1]] =
                 IF est[cur[2]] = 0 THEN @ ELSE est[cur[2]]]
    /\ LET key == <<zone[cur[1]], cur[2]>> IN
         Learn(key, val'[cur[1]]) \/ Confirm(key, val'[cur[1]])
    /\ cur' = Idle
    /\ UNCHANGED <<zone, est, cat, todo, run>>

Again ==
    /\ cur = Idle /\ todo = {} /\ run < Runs
    /\ run' = run + 1
    /\ cat' \in SUBSET Events /\ todo' \in SUBSET Sources
    /\ val' = [s \in Sources |-> 0]
    /\ UNCHANGED <<memo, zone, est, cur>>

Next == (\E s \in Sources : Pick(s)) \/ Estimate \/ Again
Spec == Init /\ [][Next]_vars

\* a source not processed is as it was read
Untouched == \A s \in todo : val[s] = 0
\* the estimation never disagrees with what is known
NeverStuck == cur # Idle => ENABLED Estimate
=============================================================================
