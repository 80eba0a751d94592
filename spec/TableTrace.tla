------------------------------ MODULE TableTrace ------------------------------
(* Recorded histories of the store and retrieve jobs against                  *)
(* CompletenessStore, and default tables against Preprocess. A case:          *)
(* kind "file": ops, of [op |-> "have", table], [op |-> "store", out, kept],  *)
(* [op |-> "retrieve", out, table (hundred thousandths), shape];              *)
(* kind "default": cat, table (ranks), out, all (every event is selected).    *)
EXTENDS CompletenessStore, TLC, Json, IOUtils, FiniteSets

Pre == INSTANCE Preprocess WITH cat <- <<>>, flags <- <<>>, working <- <<>>,
                                table <- <<>>, sel <- <<>>
Cases == ndJsonDeserialize(IOEnv.CASES)
(* Every store rounds each value; the rounding is seen at the next retrieval, *)
(* so the file is kept as the set of tables it may hold: pending is the       *)
(* stored table.                                                              *)
VARIABLES k, l, bad, pending
tvars == <<fvars, k, l, bad, pending>>
C == Cases[k]
Op == C.ops[l]

TraceInit == /\ k \in 1..Len(Cases) /\ l = 1 /\ bad = {} /\ pending = <<>>
             /\ StoreInit

FileStep ==
    IF Op.op = "have" THEN Have(Op.table) /\ bad' = {} /\ UNCHANGED pending
    ELSE IF Op.op = "store" THEN
        /\ pending' = memory /\ UNCHANGED fvars
        /\ bad' = (IF Op.out = "ok" THEN {} ELSE {"not stored: " \o Op.out})
             \cup (IF Op.kept THEN {} ELSE {"table modified"})
    ELSE IF Op.out # "ok" THEN
        bad' = {"not retrieved: " \o Op.out} /\ UNCHANGED <<fvars, pending>>
    ELSE IF ~Op.shape THEN
        bad' = {"not a table of two columns"} /\ UNCHANGED <<fvars, pending>>
    ELSE IF TableRoundsTo(pending[1], Op.table)
    THEN /\ file' = <<Op.table>> /\ memory' = <<FixedTable(Op.table)>>
         /\ bad' = {} /\ UNCHANGED pending
    ELSE /\ bad' = IF Len(Op.table) # Len(pending[1]) THEN {"number of rows"}
                   ELSE {"values"}
         /\ UNCHANGED <<fvars, pending>>

Follow == /\ bad = {}
          /\ IF C.kind = "file" THEN l <= Len(C.ops) ELSE FALSE
          /\ FileStep /\ l' = l + 1 /\ k' = k

DefaultBad ==
    IF C.out # "ok" THEN {"no default table: " \o C.out}
    ELSE (IF C.table = Pre!DefaultTable(C.cat) THEN {} ELSE {"default table"})
         \cup (IF C.all THEN {} ELSE {"the default table excludes events"})

Verdict ==
    /\ bad # {"-"}
    /\ IF bad # {} THEN TRUE
       ELSE IF C.kind = "default" THEN TRUE ELSE l > Len(C.ops)
    /\ LET b == IF C.kind = "default" THEN DefaultBad ELSE bad IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<fvars, k, l, pending>>

TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
