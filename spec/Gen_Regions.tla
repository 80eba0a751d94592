------------------------------ MODULE Gen_Regions ------------------------------
(* All sequences of MaxOps creations of the model MC_Regions, for replay.     *)
EXTENDS MC_Regions, TLC, Json
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == Len(hist) < MaxOps /\ Next /\ hist' = Append(hist, op')
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
