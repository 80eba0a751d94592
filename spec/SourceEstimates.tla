--------------------------- MODULE SourceEstimates ---------------------------
(* The two estimation jobs of the processing pipeline on the sources of a     *)
(* model. Every source is a record of the values the jobs may set (a, b,      *)
(* mmin, mmax and their errors siga, sigb, sigm; "none" before any estimate)  *)
(* and of everything else (rest). An estimate is a record of values and of    *)
(* the flag fin: whether the values to be stored are finite.                  *)
EXTENDS Naturals, Sequences

VARIABLES src,      \* sequence of sources
          cur,      \* source being processed
          own       \* whether it has events
sevars == <<src, cur, own>>

SEInit(sources) == src = sources /\ cur = 1 /\ own = FALSE

(* the pipeline turns to another source (or the same one again) *)
Turn(i, events) == /\ i \in 1..Len(src)
                   /\ cur' = i /\ own' = events /\ src' = src

(* result of the recurrence job with reference magnitude ref *)
WithRecurrence(s, est, ref) ==
    IF own /\ est.fin
    THEN [s EXCEPT !.a = est.a, !.b = est.b, !.mmin = ref,
                   !.siga = est.siga, !.sigb = est.sigb]
    ELSE s
WithMaximum(s, est) ==
    IF own /\ est.fin THEN [s EXCEPT !.mmax = est.m, !.sigm = est.sigm] ELSE s

Recurrence(est, ref) ==
    /\ src' = [src EXCEPT ![cur] = WithRecurrence(@, est, ref)]
    /\ UNCHANGED <<cur, own>>
MaximumMagnitude(est) ==
    /\ src' = [src EXCEPT ![cur] = WithMaximum(@, est)]
    /\ UNCHANGED <<cur, own>>
=============================================================================
