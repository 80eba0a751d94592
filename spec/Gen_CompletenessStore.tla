------------------------ MODULE Gen_CompletenessStore ------------------------
(* All behaviours of CompletenessStore up to what is rounded how, for replay. *)
EXTENDS CompletenessStore, TLC, Json
CONSTANT MaxOps
VARIABLE hist
vars == <<fvars, hist>>
V(n, r) == [n |-> n, r |-> r]
Tables == {<<[y |-> V(199000000, "zero"), m |-> V(450000, "less")]>>,
           <<[y |-> V(0, "zero"), m |-> V(0, "more")], [y |-> V(0, "zero"), m |-> V(0, "more")]>>,
           <<[y |-> V(195000000, "more"), m |-> V(-1, "half")], [y |-> V(-999900000, "zero"), m |-> V(1000000, "zero")],
             [y |-> V(1, "less"), m |-> V(99999, "more")]>>}
Nearest(v) == IF v.r = "more" THEN v.n + 1 ELSE v.n
Init == StoreInit /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E t \in Tables : Have(t) /\ hist' = Append(hist, [op |-> "have", table |-> t])
           \/ /\ memory # <<>>
              /\ Store([i \in DOMAIN memory[1] |-> [y |-> Nearest(memory[1][i].y), m |-> Nearest(memory[1][i].m)]])
              /\ hist' = Append(hist, [op |-> "store", table |-> <<>>])
           \/ Retrieve /\ hist' = Append(hist, [op |-> "retrieve", table |-> <<>>])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
