-------------------------- MODULE Gen_SourceEstimates --------------------------
(* All behaviours of SourceEstimates of MaxSteps jobs, for replay with        *)
(* stand-ins for the algorithms.                                              *)
EXTENDS SourceEstimates, TLC, Json
CONSTANTS NSources, MaxSteps
VARIABLE hist
vars == <<sevars, hist>>
Source == [a |-> "a0", b |-> "b0", mmin |-> "l0", mmax |-> "h0",
           siga |-> "none", sigb |-> "none", sigm |-> "none", rest |-> "x"]
Init == SEInit([i \in 1..NSources |-> Source]) /\ hist = <<>>
Step(job, n, v, w) == hist' = Append(hist, [job |-> job, n |-> n, v |-> v, w |-> w])
Rec(v, w) == Recurrence([a |-> v, b |-> w, siga |-> v, sigb |-> w, fin |-> v # "nan" /\ w # "nan"], "ref")
Next == /\ Len(hist) < MaxSteps
        /\ \/ \E i \in 1..NSources, e \in BOOLEAN :
                Turn(i, e) /\ Step("TURN", i, IF e THEN "own" ELSE "", "")
           \/ \E v, w \in {"v", "nan"} : Rec(v, w) /\ Step("REC", 0, v, w)
           \/ \E v \in {"v", "nan", "inf"} :
                MaximumMagnitude([m |-> v, sigm |-> v, fin |-> v = "v"]) /\ Step("MAX", 0, v, "")
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxSteps => PrintT("GEN " \o ToJson(hist))
=============================================================================
