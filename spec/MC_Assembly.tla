----------------------------- MODULE MC_Assembly -----------------------------
EXTENDS Assembly, TLC
CONSTANTS Names, MaxLen

Seqs == UNION {[1..n -> Names] : n \in 0..MaxLen}
Configs == [pre : Seqs, proc : Seqs, sm : BOOLEAN, result : BOOLEAN,
            table : BOOLEAN]

Init == \E kd \in {"pre", "proc"}, c \in Configs : BuildInit(kd, c)
Next == BuildNext
Spec == Init /\ [][Next]_bvars /\ WF_bvars(Next)

Count(seq, x) == Len(SelectSeq(seq, LAMBDA y : y = x))

\* a pipeline is never built with an unknown name, and refused only for one
KnownOnly ==
    LET names == IF kind = "pre" THEN cfg.pre ELSE cfg.proc IN
    /\ bpc = "built" => \A i \in DOMAIN names : Known(names[i])
    /\ bpc = "refused" => \E i \in DOMAIN names : ~Known(names[i])
\* the catalogue is read before anything uses it
ReadFirst == kind = "pre" => jobs[1] = "read_eq_catalog"
\* stored results are selected first, and selection comes after every job
StoreAfterSelect ==
    bpc = "built" /\ kind = "pre" /\ cfg.pre # <<>> /\ cfg.result =>
        \E i \in DOMAIN jobs :
            /\ jobs[i] = "create_selected_eq_vector"
            /\ i = Len(jobs) - 2
\* a table is retrieved exactly when nothing computes one
RetrieveAlone ==
    bpc = "built" /\ kind = "pre" /\ cfg.pre = <<>> =>
        (Count(jobs, "retrieve_completeness_table") = 1) = cfg.table
NothingStoredUnasked ==
    bpc = "built" /\ kind = "pre" /\ ~cfg.result =>
        \A i \in DOMAIN jobs : jobs[i] = "store_preprocessed_catalog" =>
            \E n \in DOMAIN cfg.pre : cfg.pre[n] = "Store_eq_catalog"
\* every configured job appears, in order
InOrder ==
    bpc = "built" =>
        LET names == IF kind = "pre" THEN cfg.pre ELSE cfg.proc
            off == IF kind = "pre" THEN 4 ELSE 0
        IN \A i \in DOMAIN names : jobs[off + i] = JobOf[names[i]]
Ends == <>BuildDone
=============================================================================
