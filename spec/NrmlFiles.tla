------------------------------ MODULE NrmlFiles ------------------------------
(* Source model files on disk and the writers made for them. A writer is made *)
(* for one path, refused when its directory does not exist, and may be used   *)
(* any number of times; a use replaces the whole content of its file by the   *)
(* given sources and changes nothing else.                                    *)
(* disk: path -> <<>> (no file) or <<sources>>; pens: the paths of the        *)
(* writers made so far; answer: of the last operation.                        *)
EXTENDS Integers, Sequences

VARIABLES disk, pens, answer
fvars == <<disk, pens, answer>>

NoFile == <<>>
FilesInit(paths) == disk = [p \in paths |-> NoFile] /\ pens = <<>> /\ answer = "none"

Make(p, dirs) ==
    /\ UNCHANGED disk
    /\ IF p \in dirs THEN pens' = Append(pens, p) /\ answer' = "ok"
       ELSE UNCHANGED pens /\ answer' = "ioerror"
Use(w, ss) ==
    /\ w \in DOMAIN pens
    /\ disk' = [disk EXCEPT ![pens[w]] = <<ss>>]
    /\ answer' = "ok" /\ UNCHANGED pens
=============================================================================
