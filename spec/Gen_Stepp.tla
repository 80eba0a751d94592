------------------------------ MODULE Gen_Stepp ------------------------------
(* All starting points of the model MC_Stepp, for replay.                     *)
EXTENDS MC_Stepp, TLC, Json
GenSpec == Init /\ [][FALSE]_stvars
Emit == PrintT("GEN " \o ToJson(par))
=============================================================================
