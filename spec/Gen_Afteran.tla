----------------------------- MODULE Gen_Afteran -----------------------------
(* All starting points of the model MC_Afteran, for replay.                   *)
EXTENDS MC_Afteran, TLC, Json
GenSpec == Init /\ [][FALSE]_afvars
Emit == PrintT("GEN " \o ToJson([cat |-> cat, at |-> [i \in DOMAIN cat |-> dist[1][i]], opt |-> opt, win |-> win]))
=============================================================================
