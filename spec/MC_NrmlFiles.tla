----------------------------- MODULE MC_NrmlFiles -----------------------------
(* All histories of a few writers on a few files; the files hold streams of   *)
(* tokens and are read by the automaton of Nrml.                              *)
EXTENDS NrmlFiles, Nrml
CONSTANTS Paths, Dirs, Ids, MaxSources, MaxWriters, MaxOps
VARIABLES bytes,     \* path -> the tokens in the file
          ops
mvars == <<fvars, bytes, ops>>

Src(x) == [nrml |-> "n", sm |-> "m", id |-> x, name |-> NoneT, region |-> "Volcanic",
           srs |-> "x", pos |-> <<<<"1", "2">>, <<"3", x>>>>, a |-> x, b |-> "8", mmin |-> "9",
           mmax |-> "10", tgr |-> "ML", strike |-> "11", dip |-> "12", rake |-> "13",
           mtype |-> NoneT, mags |-> <<x>>, depths |-> <<"16">>, hypo |-> x]
Models == UNION {[1..n -> {Src(x) : x \in Ids}] : n \in 1..MaxSources}
Init == FilesInit(Paths) /\ bytes = [p \in Paths |-> <<>>] /\ ops = 0
DoMake == /\ Len(pens) < MaxWriters /\ \E p \in Paths : Make(p, Dirs)
          /\ UNCHANGED bytes
DoUse == \E w \in DOMAIN pens, ss \in Models :
           /\ Use(w, ss)
           /\ bytes' = [bytes EXCEPT ![pens[w]] = ModelTokens(ss, 45 * M)]
Next == ops < MaxOps /\ ops' = ops + 1 /\ (DoMake \/ DoUse)
Spec == Init /\ [][Next]_mvars

\* every file reads back as the sources of its last write
ReadsBack == \A p \in Paths :
    IF disk[p] = NoFile THEN bytes[p] = <<>>
    ELSE LET st == Read(bytes[p]) IN Conforms(st) /\ st.srcs = disk[p][1]
OnlyExistingDirs == \A p \in Paths \ Dirs : disk[p] = NoFile
OneFileAtATime == [][\E p \in Paths : \A q \in Paths \ {p} : disk'[q] = disk[q]]_mvars
MakingWritesNothing == [][pens' # pens => disk' = disk]_mvars
=============================================================================
