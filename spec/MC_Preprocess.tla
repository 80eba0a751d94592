---------------------------- MODULE MC_Preprocess ----------------------------
(* All sequences of up to MaxJobs jobs over all catalogues of MaxEvents       *)
(* events, whatever the algorithms answer.                                    *)
EXTENDS Preprocess
CONSTANTS MaxEvents, MaxJobs, Years, Mags, TableRows
VARIABLES jobs
mvars == <<pvars, jobs>>

Rows == [y : Years, m : Mags]
Tables == UNION {[1..n -> Rows] : n \in 1..TableRows}
Init == jobs = 0 /\ \E n \in 1..MaxEvents : \E c \in [1..n -> Rows] : PreInit(c)
Next == /\ jobs < MaxJobs /\ jobs' = jobs + 1
        /\ \/ \E f \in [1..Len(working) -> {-1, 0, 1}] : Decluster(f)
           \/ \E t \in Tables : Completeness(t)
           \/ Select
Spec == Init /\ [][Next]_mvars

FlaggedStays == [][/\ \A i \in 1..Len(cat) : flags[i] # 0 => flags'[i] = flags[i]
                   /\ Len(working') <= Len(working)]_mvars
CatalogueConstant == [][cat' = cat]_mvars
(* Selecting is monotone: a longer table or more flags never add events.      *)
SelectMonotone ==
    \A t \in Tables : Len(t) > 1 =>
       LET a == Selection(cat, flags, t)
           b == Selection(cat, flags, SubSeq(t, 1, Len(t) - 1)) IN
       \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
SelectOrderFree ==
    \A t \in Tables : Selection(cat, flags, t) =
       Selection(cat, flags, [i \in 1..Len(t) |-> t[Len(t) + 1 - i]])
NoTableOnlyFlags == Selection(cat, flags, DefaultTable(cat)) = Unflagged(flags)
=============================================================================
