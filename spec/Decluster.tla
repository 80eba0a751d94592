------------------------------ MODULE Decluster ------------------------------
(* What every declustering of a catalogue has to look like.                   *)
(* cat is a sequence of events [m, t]: magnitude in hundredths and day number *)
(* (365 day years); vcl the cluster number of every event (0: none) and flag  *)
(* 0 (kept), 1 (aftershock) or -1 (foreshock).                                *)
EXTENDS Integers, Sequences, FiniteSets

Members(vcl, c) == {i \in DOMAIN vcl : vcl[i] = c}
Labels(vcl) == {vcl[i] : i \in DOMAIN vcl} \ {0}

PartitionShape(cat, vcl, flag) ==
    /\ DOMAIN vcl = DOMAIN cat /\ DOMAIN flag = DOMAIN cat
    /\ \A i \in DOMAIN flag : flag[i] \in {-1, 0, 1}
    /\ \A i \in DOMAIN vcl : vcl[i] >= 0

NumberedWithoutGaps(vcl) == Labels(vcl) = 1..Cardinality(Labels(vcl))

OutsidersKept(cat, vcl, flag) ==
    \A i \in DOMAIN cat : vcl[i] = 0 => flag[i] = 0

AtLeastTwo(vcl) == \A c \in Labels(vcl) : Cardinality(Members(vcl, c)) >= 2

OneMainshock(vcl, flag) ==
    \A c \in Labels(vcl) :
        Cardinality({i \in Members(vcl, c) : flag[i] = 0}) = 1

MainOf(vcl, flag, c) == CHOOSE i \in Members(vcl, c) : flag[i] = 0

MainIsLargest(cat, vcl, flag) ==
    \A c \in Labels(vcl) : LET e == MainOf(vcl, flag, c) IN
        \A i \in Members(vcl, c) : cat[i].m <= cat[e].m

ForeshocksBefore(cat, vcl, flag) ==
    \A c \in Labels(vcl) : LET e == MainOf(vcl, flag, c) IN
        \A i \in Members(vcl, c) :
            /\ flag[i] = -1 => cat[i].t <= cat[e].t
            /\ flag[i] = 1 => cat[i].t >= cat[e].t

\* Gardner-Knopoff calls an event of the same day an aftershock; in Afteran
\* it may be a foreshock, when the moving window has already left that day
SameDayIsAftershock(cat, vcl, flag) ==
    \A c \in Labels(vcl) : LET e == MainOf(vcl, flag, c) IN
        \A i \in Members(vcl, c) : flag[i] = -1 => cat[i].t < cat[e].t

Structural(cat, vcl, flag) ==
    /\ PartitionShape(cat, vcl, flag)
    /\ NumberedWithoutGaps(vcl)
    /\ OutsidersKept(cat, vcl, flag)
    /\ AtLeastTwo(vcl)
    /\ OneMainshock(vcl, flag)
    /\ MainIsLargest(cat, vcl, flag)
    /\ ForeshocksBefore(cat, vcl, flag)
=============================================================================
