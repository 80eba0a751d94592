------------------------------- MODULE Program -------------------------------
(* The whole program, from files to files. A run takes a configuration, reads *)
(* the catalogue and the source model, runs the assembled jobs and writes the *)
(* result; the files it leaves may be the input of the next run.              *)
(*                                                                            *)
(* world: entry[e] = [y, m, p]: year and magnitude of event e (ranks: only    *)
(*   the order matters) and its epicentre <<x, y>>; coord: the number of a    *)
(*   coordinate as text; round[v]: the value v with five decimals.            *)
(* disk: path -> [k |-> "none"], [k |-> "cat", v |-> <<events>>],             *)
(*   [k |-> "table", v |-> <<[y, m]>>], [k |-> "model", v |-> <<sources>>] or *)
(*   [k |-> "bad"], anything else.                                            *)
(* ([k |-> "odd", v |-> ...]: sources, but not a conforming document)         *)
(* cfg: cat, sm, prep, tab, res (paths; "" when not configured), pre, proc    *)
(*   (names of jobs), apply; dirs: the paths whose directory exists.          *)
(* The declustering, completeness and estimation algorithms are arguments of  *)
(* the actions: their own rules are in other modules.                         *)
EXTENDS Integers, Sequences, Geometry

VARIABLES world, dirs, disk,
          cfg, pc,        \* "idle", "pre", "turn", "filter", "proc", "write", "over"
          todo,           \* jobs left of the pipeline
          cat, flags, working, table, sel,
          src, s, own,    \* sources, the current one, its events
          answer          \* of the last run: "none", "ok" or "failed"
gvars == <<world, dirs, disk, cfg, pc, todo, cat, flags, working, table, sel, src, s, own, answer>>
rvars == <<cat, flags, working, table, sel, src>>

Asm == INSTANCE Assembly WITH kind <- "pre", jobs <- <<>>, bpc <- "built"
Prep == INSTANCE Preprocess
Est == INSTANCE SourceEstimates WITH cur <- s, own <- (own # <<>>)

None == [k |-> "none"]
NoErrors == [siga |-> "none", sigb |-> "none", sigm |-> "none"]
Extend(q) == [f \in DOMAIN q \cup DOMAIN NoErrors |-> IF f \in DOMAIN q THEN q[f] ELSE NoErrors[f]]
Strip(q) == [f \in DOMAIN q \ DOMAIN NoErrors |-> q[f]]
Files(c) == [sm |-> c.sm # "", result |-> c.prep # "", table |-> c.tab # "", pre |-> c.pre, proc |-> c.proc]

(* the source used when no model is configured *)
Default == [nrml |-> "MTK", sm |-> "MTK", id |-> "MTK", name |-> "MTK", region |-> "MTK",
            srs |-> "MTK", pos |-> <<<<"0.0", "0.0">>>>, a |-> "0.0", b |-> "0.0", mmin |-> "0.0",
            mmax |-> "0.0", tgr |-> "MTK", strike |-> "0.0", dip |-> "90.0", rake |-> "0.0",
            mtype |-> "MTK", mags |-> <<"6.5">>, depths |-> <<"5000.0">>, hypo |-> "5000.0"]

GInit(w, ds, dk) ==
    /\ world = w /\ dirs = ds /\ disk = dk
    /\ cfg = [cat |-> ""] /\ pc = "idle" /\ todo = <<>>
    /\ cat = <<>> /\ flags = <<>> /\ working = <<>> /\ table = <<>> /\ sel = <<>>
    /\ src = <<>> /\ s = 0 /\ own = <<>> /\ answer = "none"

Known(ns) == \A i \in DOMAIN ns : Asm!Known(ns[i])
JobsOf(ns) == [i \in DOMAIN ns |-> Asm!JobOf[ns[i]]]
Begin(c) ==
    /\ pc \in {"idle", "over"} /\ cfg' = c
    /\ IF Known(c.pre) /\ Known(c.proc)
       THEN /\ pc' = "pre" /\ answer' = "none"
            /\ todo' = Asm!Compulsory(Files(c)) \o JobsOf(c.pre) \o Asm!Closing(Files(c))
       ELSE pc' = "over" /\ answer' = "failed" /\ todo' = <<>>
    /\ UNCHANGED <<world, dirs, disk>>
    /\ cat' = <<>> /\ flags' = <<>> /\ working' = <<>> /\ table' = <<>> /\ sel' = <<>>
    /\ src' = <<>> /\ s' = 0 /\ own' = <<>>

Fail == pc' = "over" /\ answer' = "failed" /\ UNCHANGED <<disk, todo, rvars, s, own>>
Same == UNCHANGED <<world, dirs, cfg>>
Done == todo' = Tail(todo) /\ UNCHANGED <<pc, answer, s, own>>
Next1(job) == pc = "pre" /\ todo # <<>> /\ Head(todo) = job

Entries(c) == [i \in DOMAIN c |-> [y |-> world.entry[c[i]].y, m |-> world.entry[c[i]].m]]
Events(w) == [i \in DOMAIN w |-> cat[w[i]]]
YearsMags == Entries(Events(working))

ReadCatalogue == Next1("read_eq_catalog") /\ Same /\
    IF disk[cfg.cat].k = "cat"
    THEN cat' = disk[cfg.cat].v /\ Done /\ UNCHANGED <<disk, flags, working, table, sel, src>>
    ELSE Fail
ReadModel == Next1("read_source_model") /\ Same /\
    IF disk[cfg.sm].k = "model"
    THEN src' = [i \in DOMAIN disk[cfg.sm].v |-> Extend(disk[cfg.sm].v[i])] /\ Done
         /\ UNCHANGED <<disk, cat, flags, working, table, sel>>
    ELSE Fail
DefaultModel == Next1("create_default_source_model") /\ Same /\ Done
    /\ src' = <<Extend(Default)>> /\ UNCHANGED <<disk, cat, flags, working, table, sel>>
Matrix == Next1("create_catalog_matrix") /\ Same /\ Done
    /\ working' = Prep!All(cat) /\ UNCHANGED <<disk, cat, flags, table, sel, src>>
Defaults == Next1("create_default_values") /\ Same /\
    IF cat = <<>> THEN Fail
    ELSE /\ flags' = [i \in DOMAIN cat |-> 0] /\ table' = Prep!DefaultTable(Entries(cat)) /\ Done
         /\ UNCHANGED <<disk, cat, working, sel, src>>
(* res: <<flags>> of the events of the working catalogue, <<>>: it fails *)
Decluster(job, res) == Next1(job) /\ Same /\
    IF res = <<>> THEN Fail
    ELSE /\ flags' = [e \in DOMAIN cat |->
                         IF \E i \in DOMAIN working : working[i] = e
                         THEN res[1][CHOOSE i \in DOMAIN working : working[i] = e] ELSE flags[e]]
         /\ working' = Prep!Unflagged(flags') /\ Done
         /\ UNCHANGED <<disk, cat, table, sel, src>>
(* res: <<table>>, <<>>: it fails *)
Completeness(res) == Next1("stepp") /\ Same /\
    IF res = <<>> THEN Fail
    ELSE table' = res[1] /\ Done /\ UNCHANGED <<disk, cat, flags, working, sel, src>>
Select == Next1("create_selected_eq_vector") /\ Same /\ Done
    /\ sel' = Prep!Selection(Entries(cat), flags, table)
    /\ UNCHANGED <<disk, cat, flags, working, table, src>>
Put(p, x) == disk' = [disk EXCEPT ![p] = x]
StoreCatalogue == Next1("store_preprocessed_catalog") /\ Same /\
    IF cfg.prep \in dirs
    THEN Put(cfg.prep, [k |-> "cat", v |-> Events(sel)]) /\ Done /\ UNCHANGED rvars
    ELSE Fail
StoreTable == Next1("store_completeness_table") /\ Same /\
    IF cfg.tab \in dirs
    THEN /\ Put(cfg.tab, [k |-> "table", v |-> [i \in DOMAIN table |->
                [y |-> world.round[table[i].y], m |-> world.round[table[i].m]]]])
         /\ Done /\ UNCHANGED rvars
    ELSE Fail
RetrieveTable == Next1("retrieve_completeness_table") /\ Same /\
    IF disk[cfg.tab].k = "table"
    THEN table' = disk[cfg.tab].v /\ Done /\ UNCHANGED <<disk, cat, flags, working, sel, src>>
    ELSE Fail

Turn == /\ pc = "pre" /\ todo = <<>> /\ Same
        /\ IF cfg.apply /\ src # <<>> THEN pc' = "filter" /\ s' = 1 ELSE pc' = "write" /\ s' = 0
        /\ UNCHANGED <<disk, todo, rvars, own, answer>>
Polygon(q) == [i \in DOMAIN q.pos |-> <<world.coord[q.pos[i][1]], world.coord[q.pos[i][2]]>>]
Filter == /\ pc = "filter" /\ Same
          /\ IF cfg.sm # "" /\ ~Valid(Polygon(src[s])) THEN Fail
             ELSE /\ own' = IF cfg.sm = "" THEN Events(working)
                            ELSE SelectSeq(Events(working),
                                     LAMBDA e : Inside(world.entry[e].p, Polygon(src[s])))
                  /\ pc' = "proc" /\ todo' = JobsOf(cfg.proc)
                  /\ UNCHANGED <<disk, rvars, s, answer>>
Next2(job) == pc = "proc" /\ todo # <<>> /\ Head(todo) = job
(* est: as in SourceEstimates; <<>> when the algorithm fails; not asked when  *)
(* the source has no events *)
Recurrence(est, ref) == Next2("recurrence") /\ Same /\
    IF own # <<>> /\ est = <<>> THEN Fail
    ELSE /\ IF own = <<>> THEN UNCHANGED src
            ELSE src' = [src EXCEPT ![s] = Est!WithRecurrence(@, est[1], ref)]
         /\ Done /\ UNCHANGED <<disk, cat, flags, working, table, sel>>
Maximum(est) == Next2("maximum_magnitude") /\ Same /\
    IF own # <<>> /\ est = <<>> THEN Fail
    ELSE /\ IF own = <<>> THEN UNCHANGED src
            ELSE src' = [src EXCEPT ![s] = Est!WithMaximum(@, est[1])]
         /\ Done /\ UNCHANGED <<disk, cat, flags, working, table, sel>>
NextSource == /\ pc = "proc" /\ todo = <<>> /\ Same
              /\ IF s < Len(src) THEN s' = s + 1 /\ pc' = "filter" ELSE s' = s /\ pc' = "write"
              /\ UNCHANGED <<disk, todo, rvars, own, answer>>
Write == /\ pc = "write" /\ Same
         /\ IF cfg.res \in dirs /\ src # <<>>
            THEN /\ Put(cfg.res, [k |-> IF cfg.sm = "" THEN "odd" ELSE "model", v |-> [i \in DOMAIN src |-> Strip(src[i])]])
                 /\ pc' = "over" /\ answer' = "ok" /\ UNCHANGED <<todo, rvars, s, own>>
            ELSE Fail

Plain == ReadCatalogue \/ ReadModel \/ DefaultModel \/ Matrix \/ Defaults \/ Select
         \/ StoreCatalogue \/ StoreTable \/ RetrieveTable \/ Turn \/ Filter \/ NextSource \/ Write
=============================================================================
