------------------------------- MODULE Gen_MLE -------------------------------
(* All starting points of the model MC_MLE, for replay.                       *)
EXTENDS MC_MLE, Json
GenSpec == Init /\ [][FALSE]_mvars
Emit == PrintT("GEN " \o ToJson(par))
=============================================================================
