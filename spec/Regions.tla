-------------------------------- MODULE Regions --------------------------------
(* Tectonic regions: which are accepted and what they are. Regions are made   *)
(* one after another by name (with what is given replacing the defaults) or   *)
(* new. Models are strings, values [id, pos] (an identity of the number and   *)
(* whether it is above zero), weights billionths, -1 for what is no number.   *)
EXTENDS Integers, Sequences

One == 1000000000
Cap == 1500000000
(* weights above one count as a little more than one *)
Capped(w) == IF w > One THEN One + 5 ELSE w
Total(ws) == LET S[i \in 0..Len(ws)] == IF i = 0 THEN 0
                   ELSE LET t == S[i - 1] + Capped(ws[i]) IN IF t > Cap THEN Cap ELSE t
             IN S[Len(ws)]
WeightsOk(ws) == (\A i \in DOMAIN ws : ws[i] >= 0) /\ Total(ws) = One

Supported == {"Peer", "WC1994"}
SetOk(s) == Len(s.of) = Len(s.weight) /\ WeightsOk(s.weight)
MsrOk(s) == SetOk(s) /\ \A i \in DOMAIN s.of : s.of[i] \in Supported
ValuesOk(s) == SetOk(s) /\ \A i \in DOMAIN s.of : s.of[i].pos
Valid(r) == MsrOk(r.msr) /\ ValuesOk(r.smod) /\ ValuesOk(r.dlr)

Single(v) == [of |-> <<v>>, weight |-> <<One>>]
Value(id) == [id |-> id, pos |-> TRUE]
Msr0 == Single("WC1994")
Named(name) ==
    LET D(id, smod, dlr) == [id |-> id, msr |-> Msr0, smod |-> Single(Value(smod)),
                             dlr |-> Single(Value(dlr))]
    IN CASE name = "Active Shallow Crust" -> D("001", "30.0", "1.25e-05")
         [] name = "Subduction Interface" -> D("002", "49.0", "1.25e-05")
         [] name = "Subduction Intraslab" -> D("003", "49.0", "1.25e-05")
         [] name = "Stable Continental"   -> D("004", "29.0", "0.0001")
         [] name = "Volcanic"             -> D("005", "29.0", "1.25e-05")
Names == {"Active Shallow Crust", "Subduction Interface", "Subduction Intraslab",
          "Stable Continental", "Volcanic"}

(* op: how ("name" or "new"), id (the name or the identifier), msr, smod, dlr *)
(* and has (which of them are given; all of a new one are)                    *)
Known(op) == op.how = "new" \/ op.id \in Names
Made(op) ==
    LET d == IF op.how = "new" THEN op ELSE Named(op.id) IN
    [id |-> d.id,
     msr |-> IF "msr" \in op.has THEN op.msr ELSE d.msr,
     smod |-> IF "smod" \in op.has THEN op.smod ELSE d.smod,
     dlr |-> IF "dlr" \in op.has THEN op.dlr ELSE d.dlr]
Accepts(op) == IF Known(op) THEN Valid(Made(op)) ELSE FALSE
Outcome(op) == IF Accepts(op) THEN "ok" ELSE "raise:ValueError"
After(regions, op) == IF Accepts(op) THEN Append(regions, Made(op)) ELSE regions
=============================================================================
