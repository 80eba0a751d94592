-------------------------- MODULE MC_CatalogueStore --------------------------
(* All histories of writes and reads of a few files.                          *)
EXTENDS CatalogueStore
CONSTANTS Paths, Dirs, Values, MaxRows, MaxOps
VARIABLES ops, last       \* last: the entries last written to each path
mvars == <<svars, ops, last>>

Entries == UNION {[1..n -> Values] : n \in 0..MaxRows}
Init == StoreInit(Paths) /\ ops = 0 /\ last = [p \in Paths |-> NoFile]
DoWrite == \E p \in Paths, e \in Entries :
             /\ Write(p, e, Dirs)
             /\ last' = IF p \in Dirs THEN [last EXCEPT ![p] = <<e>>] ELSE last
DoRead == \E p \in Paths : Read(p) /\ UNCHANGED last
Next == ops < MaxOps /\ ops' = ops + 1 /\ (DoWrite \/ DoRead)
Spec == Init /\ [][Next]_mvars

LastWriteWins == disk = last
ReadIsLastWrite == seen[1] = "rows" => \E p \in Dirs : <<seen[2]>> = last[p]
OnlyExistingDirs == \A p \in Paths \ Dirs : disk[p] = NoFile
OneFileAtATime == [][\E p \in Paths : \A q \in Paths \ {p} : disk'[q] = disk[q]]_mvars
=============================================================================
