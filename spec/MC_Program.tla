------------------------------ MODULE MC_Program ------------------------------
(* Runs over a few files, two of which may be outputs of the run before, with *)
(* any outcome of every algorithm.                                            *)
EXTENDS Program, FiniteSets, TLC
CONSTANTS MaxRuns, PreLists, ProcLists
VARIABLES runs, start     \* start: the files when the run began
mvars == <<gvars, runs, start>>

MCPre == {<<>>, <<"GardnerKnopoff">>, <<"GardnerKnopoff", "Stepp">>, <<"Stepp", "GardnerKnopoff">>, <<"Other">>}
MCProc == {<<>>, <<"Recurrence">>, <<"Recurrence", "MaximumMagnitude">>, <<"Recurrence", "Other">>}
Sq(x, y, w) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + w>>, <<x, y + w>>>>
Txt(n) == ToString(n)
Source(id, ps) == [Default EXCEPT !.id = id, !.a = "a0", !.b = "b0", !.mmin = "i0", !.mmax = "x0",
                      !.pos = [i \in DOMAIN ps |-> <<Txt(ps[i][1]), Txt(ps[i][2])>>]]
World == [entry |-> <<[y |-> 2, m |-> 3, p |-> <<1, 1>>], [y |-> 1, m |-> 4, p |-> <<5, 1>>]>>,
          coord |-> [t \in {Txt(n) : n \in -1..20} |-> CHOOSE n \in -1..20 : Txt(n) = t],
          round |-> [v \in 1..6 |-> v]]
Disk0 == [p \in {"c", "m", "bent", "prep", "tab", "res", "away"} |->
            CASE p = "c" -> [k |-> "cat", v |-> <<1, 2>>]
              [] p = "m" -> [k |-> "model", v |-> <<Source("s1", Sq(0, 0, 2)), Source("s2", Sq(0, 0, 6))>>]
              [] p = "bent" -> [k |-> "model", v |-> <<Source("s1", Sq(0, 0, 2)),
                                  Source("s3", <<<<0, 0>>, <<2, 2>>, <<2, 0>>, <<0, 2>>>>)>>]
              [] OTHER -> None]
Dirs0 == {"c", "m", "bent", "prep", "tab", "res"}
Configs == [cat : {"c", "prep"}, sm : {"", "m", "bent", "res"}, prep : {"", "prep"}, tab : {"", "tab"},
            res : {"res", "away"}, pre : PreLists, proc : ProcLists, apply : BOOLEAN]
\* a configuration names no input as an output, and a table with a catalogue
Sane(c) == c.cat # c.prep /\ c.sm # c.res /\ (c.prep # "" => c.tab # "")

Flags(n) == UNION {[1..n -> {0, 1}] : x \in {1}} \ {[i \in 1..n |-> 1]}
Ests == {<<>>, <<[fin |-> FALSE, a |-> "n", b |-> "n", siga |-> "n", sigb |-> "n", m |-> "n", sigm |-> "n"]>>,
         <<[fin |-> TRUE, a |-> "a1", b |-> "b1", siga |-> "1", sigb |-> "2", m |-> "x1", sigm |-> "3"]>>}
Init == GInit(World, Dirs0, Disk0) /\ runs = 0 /\ start = Disk0
New == /\ runs < MaxRuns /\ \E c \in Configs : Sane(c) /\ Begin(c)
       /\ runs' = runs + 1 /\ start' = disk
Step == /\ \/ Plain
           \/ \E f \in {<<>>} \cup {<<g>> : g \in Flags(Len(working))} :
                  Decluster("gardner_knopoff", f)
           \/ \E t \in {<<>>, <<<<[y |-> 2, m |-> 5], [y |-> 1, m |-> 6]>>>>} : Completeness(t)
           \/ \E e \in Ests : Recurrence(e, "ref") \/ Maximum(e)
        /\ UNCHANGED <<runs, start>>
Next == New \/ Step
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Step)

Stage(p) == IF p = cfg.res THEN "res" ELSE IF p = cfg.prep THEN "prep" ELSE IF p = cfg.tab THEN "tab" ELSE "input"
Over == pc = "over" /\ runs > 0
\* the inputs of a run, and every file it does not write, stay as they were
InputsKept == (pc # "idle") => \A p \in DOMAIN disk : Stage(p) = "input" => disk[p] = start[p]
\* the optional files are written exactly when asked for
Asked == cfg.pre # <<>> /\ cfg.prep # ""
AskedFor == (Over /\ answer = "ok") =>
    IF Asked THEN /\ disk[cfg.prep] = [k |-> "cat", v |-> Events(sel)]
                  /\ disk[cfg.tab] = [k |-> "table", v |-> table]
    ELSE \A p \in DOMAIN disk : p # cfg.res => disk[p] = start[p]
\* the preprocessed catalogue is a part of the catalogue, in order
IsPart(a, b) == \E f \in [DOMAIN a -> DOMAIN b] :
    (\A i \in DOMAIN a : a[i] = b[f[i]]) /\ \A i, j \in DOMAIN a : i < j => f[i] < f[j]
PrepIsPart == (Over /\ cfg.pre # <<>> /\ cfg.prep # "" /\ disk[cfg.prep] # start[cfg.prep]) =>
    IsPart(disk[cfg.prep].v, start[cfg.cat].v)
\* no result without a whole run; and it is the model with the estimates
NoResult == (Over /\ answer = "failed") => disk[cfg.res] = start[cfg.res]
Others(q) == [f \in DOMAIN q \ {"a", "b", "mmin", "mmax"} |-> q[f]]
Result == (Over /\ answer = "ok") =>
    LET m == IF cfg.sm = "" THEN <<Default>> ELSE start[cfg.sm].v
        got == disk[cfg.res].v IN
    /\ Len(got) = Len(m)
    /\ \A i \in DOMAIN m :
         /\ Others(got[i]) = Others(m[i])
         /\ ~cfg.apply => got[i] = m[i]
         /\ (\A j \in DOMAIN cfg.proc : cfg.proc[j] # "Recurrence") =>
               got[i].a = m[i].a /\ got[i].b = m[i].b /\ got[i].mmin = m[i].mmin
         /\ (\A j \in DOMAIN cfg.proc : cfg.proc[j] # "MaximumMagnitude") => got[i].mmax = m[i].mmax
         /\ (got[i].a = "a1") = (got[i].b = "b1") \/ m[i].b = "b1"
WorkingIsUnflagged == (pc \in {"turn", "filter", "proc", "write"}) => working = Prep!Unflagged(flags)
\* an unknown job: nothing happens at all
UnknownJob == (Over /\ ~(Known(cfg.pre) /\ Known(cfg.proc))) => answer = "failed" /\ disk = start
\* a processing job never meets events of others
OwnInside == (pc = "proc" /\ cfg.sm # "") =>
    \A i \in DOMAIN own : Inside(world.entry[own[i]].p, Polygon(src[s]))
OneFileAtATime == [][\A p, q \in DOMAIN disk : disk'[p] # disk[p] /\ disk'[q] # disk[q] => p = q]_mvars
Ends == (runs > 0) ~> (pc = "over")
=============================================================================
