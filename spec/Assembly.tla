------------------------------ MODULE Assembly ------------------------------
(* How a configuration is turned into pipelines. The builder appends one job  *)
(* at a time; a build ends with the pipeline or at the first unknown name.    *)
EXTENDS Naturals, Sequences

JobOf == [GardnerKnopoff |-> "gardner_knopoff",
          Afteran |-> "afteran",
          Stepp |-> "stepp",
          Recurrence |-> "recurrence",
          MaximumMagnitude |-> "maximum_magnitude",
          Create_eq_vector |-> "create_selected_eq_vector",
          Store_eq_catalog |-> "store_preprocessed_catalog",
          Store_completeness_table |-> "store_completeness_table",
          Retrieve_completeness_table |-> "retrieve_completeness_table"]

Known(name) == name \in DOMAIN JobOf

Compulsory(cfg) ==
    <<"read_eq_catalog",
      IF cfg.sm THEN "read_source_model" ELSE "create_default_source_model",
      "create_catalog_matrix", "create_default_values">>

Closing(cfg) ==
    IF cfg.pre # <<>>
    THEN IF cfg.result
         THEN <<"create_selected_eq_vector", "store_preprocessed_catalog",
                "store_completeness_table">>
         ELSE <<>>
    ELSE IF cfg.table THEN <<"retrieve_completeness_table">> ELSE <<>>

VARIABLES kind,   \* "pre" or "proc"
          cfg,    \* the configuration
          jobs,   \* the pipeline so far
          todo,   \* the configured names still to append
          bpc     \* "names", "closing", "built", "refused"

bvars == <<kind, cfg, jobs, todo, bpc>>

BuildInit(kd, c) ==
    /\ kind = kd /\ cfg = c
    /\ jobs = IF kd = "pre" THEN Compulsory(c) ELSE <<>>
    /\ todo = IF kd = "pre" THEN c.pre ELSE c.proc
    /\ bpc = "names"

Append1 ==
    /\ bpc = "names" /\ todo # <<>> /\ Known(Head(todo))
    /\ jobs' = Append(jobs, JobOf[Head(todo)])
    /\ todo' = Tail(todo)
    /\ UNCHANGED <<kind, cfg, bpc>>

Refuse ==
    /\ bpc = "names" /\ todo # <<>> /\ ~Known(Head(todo))
    /\ bpc' = "refused"
    /\ UNCHANGED <<kind, cfg, jobs, todo>>

Close ==
    /\ bpc = "names" /\ todo = <<>>
    /\ jobs' = IF kind = "pre" THEN jobs \o Closing(cfg) ELSE jobs
    /\ bpc' = "built"
    /\ UNCHANGED <<kind, cfg, todo>>

BuildNext == Append1 \/ Refuse \/ Close
BuildDone == bpc \in {"built", "refused"}
=============================================================================
