---------------------------- MODULE Gen_Workflow ----------------------------
(* All starting points of the model MC_Workflow, for replay.                  *)
EXTENDS MC_Workflow, Json
GenSpec == Init /\ [][FALSE]_vars
Emit == PrintT("GEN " \o ToJson([npre |-> npre, nproc |-> nproc, nsrc |-> nsrc, apply |-> apply, effect |-> effect, zone |-> zone, fail |-> fail]))
=============================================================================
