---------------------------- MODULE Gen_NrmlFiles ----------------------------
(* All behaviours of NrmlFiles of MaxOps operations (models by number), for   *)
(* replay.                                                                    *)
EXTENDS NrmlFiles, TLC, Json
CONSTANTS Paths, Dirs, Models, MaxOps
VARIABLE hist
vars == <<fvars, hist>>
Init == FilesInit(Paths) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E p \in Paths :
                Make(p, Dirs) /\ hist' = Append(hist, [op |-> "make", p |-> p, w |-> 0, m |-> 0])
           \/ \E w \in DOMAIN pens, m \in Models :
                Use(w, m) /\ hist' = Append(hist, [op |-> "use", p |-> "", w |-> w, m |-> m])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
