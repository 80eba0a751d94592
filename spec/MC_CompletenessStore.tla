------------------------ MODULE MC_CompletenessStore ------------------------
(* Histories of tables made, stored and retrieved.                            *)
EXTENDS CompletenessStore
CONSTANTS Ints, MaxRows, MaxOps
VARIABLES ops, stored       \* stored: <<>> or <<table last stored>>
mvars == <<fvars, ops, stored>>
Values == [n : Ints, r : {"zero", "less", "half", "more"}]
Tables == UNION {[1..n -> [y : Values, m : {[n |-> 4, r |-> "more"]}]] : n \in 1..MaxRows}
Fixed == UNION {[1..n -> [y : Ints \cup {i + 1 : i \in Ints}, m : {4, 5}]] : n \in 1..MaxRows}

Init == StoreInit /\ ops = 0 /\ stored = <<>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ (\E t \in Tables : Have(t)) /\ UNCHANGED stored
           \/ (\E q \in Fixed : Store(q)) /\ stored' = memory
           \/ Retrieve /\ UNCHANGED stored
Spec == Init /\ [][Next]_mvars

(* What is retrieved is what was stored, to five decimals. *)
Faithful == stored # <<>> => TableRoundsTo(stored[1], file[1])
(* Storing what was retrieved changes nothing. *)
Idempotent == [][(file # <<>> /\ memory = <<FixedTable(file[1])>> /\ file' # file)
                 => FALSE]_mvars
=============================================================================
