--------------------------- MODULE PartitionTrace ---------------------------
(* Results of both real declustering algorithms, on catalogues of any size:   *)
(* the structure every declustering has.  rows and kept are the catalogue     *)
(* before and after, as texts.                                                *)
EXTENDS Decluster, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, over
C == Cases[k]

Cat(c) == [i \in 1..Len(c.m) |-> [m |-> c.m[i], t |-> c.t[i]]]

RECURSIVE Kept(_, _, _)
Kept(rows, flag, i) ==
    IF i > Len(rows) THEN <<>>
    ELSE IF flag[i] = 0 THEN <<rows[i]>> \o Kept(rows, flag, i + 1)
    ELSE Kept(rows, flag, i + 1)

\* Kept without deep recursion: order and multiplicity of the kept rows
KeptOk(c) ==
    LET idx == {i \in 1..Len(c.rows) : c.flag[i] = 0}
        Rank[i \in 0..Len(c.rows)] ==
            IF i = 0 THEN 0 ELSE Rank[i - 1] + (IF i \in idx THEN 1 ELSE 0)
    IN  /\ Len(c.kept) = Rank[Len(c.rows)]
        /\ \A i \in idx : c.kept[Rank[i]] = c.rows[i]

Clauses(c) ==
    IF c.out # "ok" THEN {"no result: " \o c.out}
    ELSE IF ~PartitionShape(Cat(c), c.vcl, c.flag)
         THEN {"one cluster number and one flag for every event"}
    ELSE (IF NumberedWithoutGaps(c.vcl) THEN {} ELSE {"cluster numbers 1..n"})
     \cup (IF OutsidersKept(Cat(c), c.vcl, c.flag) THEN {}
           ELSE {"event removed without a cluster"})
     \cup (IF AtLeastTwo(c.vcl) THEN {} ELSE {"cluster of one event"})
     \cup (IF ~OneMainshock(c.vcl, c.flag) THEN {"one mainshock per cluster"}
           ELSE (IF MainIsLargest(Cat(c), c.vcl, c.flag) THEN {}
                 ELSE {"mainshock is not the largest event"})
             \cup (IF ForeshocksBefore(Cat(c), c.vcl, c.flag) THEN {}
                   ELSE {"foreshock after or aftershock before mainshock"})
             \cup (IF c.alg # "gk" \/ SameDayIsAftershock(Cat(c), c.vcl, c.flag)
                   THEN {} ELSE {"same day event flagged as foreshock"}))
     \cup (IF KeptOk(c) THEN {} ELSE {"kept events are not those flagged 0, in order"})
     \cup (IF c.unchanged THEN {} ELSE {"the catalogue given was modified"})
     \cup (IF c.again THEN {} ELSE {"a second call gives another result"})

TraceInit == k \in 1..Len(Cases) /\ over = FALSE
TraceNext == /\ ~over /\ over' = TRUE /\ UNCHANGED k
             /\ LET b == Clauses(C) IN
                IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
                ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<k, over>>
=============================================================================
