--------------------------- MODULE CatalogueStore ---------------------------
(* Catalogue files on disk. Writing entries replaces the whole content of one *)
(* file; nothing else changes; a file in a directory that does not exist      *)
(* cannot be written. Reading gives the entries of the last write.            *)
(* disk: path -> <<>> (no such file) or <<entries>>; dirs: the paths whose    *)
(* directory exists; seen: the answer of the last operation.                  *)
EXTENDS Integers, Sequences

VARIABLES disk, seen
svars == <<disk, seen>>

NoFile == <<>>
StoreInit(paths) == disk = [p \in paths |-> NoFile] /\ seen = <<"none">>

Write(p, entries, dirs) ==
    IF p \in dirs
    THEN disk' = [disk EXCEPT ![p] = <<entries>>] /\ seen' = <<"ok">>
    ELSE UNCHANGED disk /\ seen' = <<"ioerror">>

Read(p) ==
    /\ disk[p] # NoFile
    /\ seen' = <<"rows", disk[p][1]>>
    /\ UNCHANGED disk
=============================================================================
