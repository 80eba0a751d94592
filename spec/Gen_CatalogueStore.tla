-------------------------- MODULE Gen_CatalogueStore --------------------------
(* All behaviours of CatalogueStore with MaxOps operations on a few files,    *)
(* for replay into the real code.                                             *)
EXTENDS CatalogueStore, TLC, Json
CONSTANTS Paths, Dirs, MaxOps
VARIABLE hist
vars == <<svars, hist>>
Contents == {<<>>, <<1>>, <<2, 1>>, <<1, 1, 2>>}
Init == StoreInit(Paths) /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E p \in Paths, e \in Contents :
                Write(p, e, Dirs) /\ hist' = Append(hist, [op |-> "write", p |-> p, e |-> e])
           \/ \E p \in Paths :
                Read(p) /\ hist' = Append(hist, [op |-> "read", p |-> p, e |-> <<>>])
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxOps => PrintT("GEN " \o ToJson(hist))
=============================================================================
