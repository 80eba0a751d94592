------------------------------- MODULE MC_Stepp -------------------------------
(* All small catalogues.                                                      *)
EXTENDS Stepp
CONSTANTS MaxEvents, YearSpan, MagSet, Tols, Widths
Init == \E n \in 1..MaxEvents :
        \E e \in [1..n -> [y : 1..YearSpan, m : MagSet]] :
        \E d \in Widths, s \in Tols, k \in BOOLEAN, t \in {1, 2} :
           LET p == [events |-> e, dm |-> d, dt |-> t, tol |-> s, lock |-> k] IN
           /\ \A i \in 1..(n - 1) : e[i].y < e[i + 1].y \/ (e[i].y = e[i + 1].y /\ e[i].m <= e[i + 1].m)
           /\ (CHOOSE x \in {e[n].y - e[1].y + 1} : TRUE) >= t
           /\ SteppInit(p)
Next == NextBin
Spec == Init /\ [][Next]_stvars
=============================================================================
