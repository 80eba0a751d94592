------------------------------ MODULE Workflow ------------------------------
(* A run of the workflow: the preprocessing jobs in order, then for every     *)
(* source model the selection of its events and the processing jobs in order. *)
(* Any job, and the selection, may fail; that ends the run.                   *)
EXTENDS Naturals, Sequences

VARIABLES npre, nproc, nsrc, apply,  \* the pipelines, the sources, the switch
          effect,   \* effect[j]: the working catalogue preprocessing job j leaves
          zone,     \* zone[s]: the events inside source s
          fail,     \* <<phase, source, job>> which fails, <<"none", 0, 0>>
          phase,    \* "pre", "filter", "proc", "done", "failed"
          j, s,     \* next job, current source
          cat       \* the working catalogue: a sequence of event numbers

wvars == <<npre, nproc, nsrc, apply, effect, zone, fail, phase, j, s, cat>>
fixed == <<npre, nproc, nsrc, apply, effect, zone, fail>>

Own(src) == SelectSeq(cat, LAMBDA e : e \in zone[src])

WInit(np, nr, ns, a, ef, zo, fa, first) ==
    /\ npre = np /\ nproc = nr /\ nsrc = ns /\ apply = a
    /\ effect = ef /\ zone = zo /\ fail = fa
    /\ phase = "pre" /\ j = 1 /\ s = 0 /\ cat = first

Pre ==
    /\ phase = "pre" /\ j <= npre
    /\ IF fail = <<"pre", 0, j>>
       THEN phase' = "failed" /\ UNCHANGED <<j, cat>>
       ELSE j' = j + 1 /\ cat' = effect[j] /\ UNCHANGED phase
    /\ UNCHANGED <<s, fixed>>

\* the end of preprocessing
Turn ==
    /\ phase = "pre" /\ j > npre
    /\ phase' = IF apply /\ nsrc > 0 THEN "filter" ELSE "done"
    /\ s' = IF apply /\ nsrc > 0 THEN 1 ELSE 0
    /\ UNCHANGED <<j, cat, fixed>>

Select ==
    /\ phase = "filter"
    /\ IF fail = <<"filter", s, 0>>
       THEN phase' = "failed" /\ UNCHANGED j
       ELSE phase' = "proc" /\ j' = 1
    /\ UNCHANGED <<s, cat, fixed>>

Proc ==
    /\ phase = "proc" /\ j <= nproc
    /\ IF fail = <<"proc", s, j>>
       THEN phase' = "failed" /\ UNCHANGED j
       ELSE j' = j + 1 /\ UNCHANGED phase
    /\ UNCHANGED <<s, cat, fixed>>

NextSource ==
    /\ phase = "proc" /\ j > nproc
    /\ IF s < nsrc THEN s' = s + 1 /\ phase' = "filter"
       ELSE phase' = "done" /\ UNCHANGED s
    /\ UNCHANGED <<j, cat, fixed>>

WNext == Pre \/ Turn \/ Select \/ Proc \/ NextSource
WDone == phase \in {"done", "failed"}
=============================================================================
