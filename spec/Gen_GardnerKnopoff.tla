------------------------- MODULE Gen_GardnerKnopoff -------------------------
(* All starting points of the model MC_GardnerKnopoff, for replay.            *)
EXTENDS MC_GardnerKnopoff, TLC, Json
GenSpec == Init /\ [][FALSE]_gkvars
Emit == PrintT("GEN " \o ToJson([cat |-> cat, at |-> [i \in DOMAIN cat |-> dist[1][i]], opt |-> opt, pct |-> pct]))
=============================================================================
