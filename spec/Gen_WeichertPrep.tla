-------------------------- MODULE Gen_WeichertPrep --------------------------
(* All starting points of the model MC_WeichertPrep, for replay.              *)
EXTENDS MC_WeichertPrep, Json
GenSpec == Init /\ [][FALSE]_wvars
Emit == PrintT("GEN " \o ToJson(par))
=============================================================================
