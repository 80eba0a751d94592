------------------------------ MODULE Preprocess ------------------------------
(* The shared data of the preprocessing jobs.                                 *)
(* cat:     the catalogue matrix, a sequence of [y, m] (year and magnitude,   *)
(*          order is all that matters); it never changes                      *)
(* flags:   one flag per event; 0 until a declustering removes the event      *)
(* working: event numbers of the working catalogue                            *)
(* table:   completeness table, a sequence of [y, m]                          *)
(* sel:     <<>> or <<numbers of the selected events>>                        *)
(* The declustering and completeness algorithms are nondeterministic here     *)
(* (any flags, any table): their own rules are in Decluster and Stepp.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cat, flags, working, table, sel
pvars == <<cat, flags, working, table, sel>>

All(c) == [i \in 1..Len(c) |-> i]
Unflagged(f) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : f[i] = 0)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* Defaults: the first year and the smallest magnitude. *)
DefaultTable(c) == <<[y |-> MinOf({c[i].y : i \in 1..Len(c)}),
                      m |-> MinOf({c[i].m : i \in 1..Len(c)})]>>
PreInit(c) ==
    /\ cat = c /\ flags = [i \in 1..Len(c) |-> 0] /\ working = All(c)
    /\ table = DefaultTable(c) /\ sel = <<>>

(* A declustering sees the working catalogue only; res flags its events.      *)
Merged(res) ==
    [e \in 1..Len(cat) |->
       IF \E i \in 1..Len(working) : working[i] = e
       THEN res[CHOOSE i \in 1..Len(working) : working[i] = e] ELSE flags[e]]
Decluster(res) ==
    /\ Len(res) = Len(working)
    /\ flags' = Merged(res) /\ working' = Unflagged(flags')
    /\ UNCHANGED <<cat, table, sel>>

(* A completeness algorithm sees years and magnitudes of the working          *)
(* catalogue.                                                                 *)
Completeness(t) == table' = t /\ UNCHANGED <<cat, flags, working, sel>>

(* An event is excluded by a row with a later year and a larger magnitude.    *)
Incomplete(e, t) == \E i \in 1..Len(t) : e.y < t[i].y /\ e.m < t[i].m
Selection(c, f, t) ==
    SelectSeq(All(c), LAMBDA i : f[i] = 0 /\ ~Incomplete(c[i], t))
Select == sel' = <<Selection(cat, flags, table)>>
          /\ UNCHANGED <<cat, flags, working, table>>

---------------------------------------------------------------------------
OneFlagEach == Len(flags) = Len(cat)
WorkingIsUnflagged == working = Unflagged(flags)
DefaultExcludesNothing ==
    \A i \in 1..Len(cat) : ~Incomplete(cat[i], DefaultTable(cat))
SelectedAreUnflagged ==
    sel # <<>> => \A i \in 1..Len(sel[1]) :
                     \A j \in 1..Len(sel[1]) : i < j => sel[1][i] < sel[1][j]
=============================================================================
