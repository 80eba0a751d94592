-------------------------- MODULE MC_GardnerKnopoff --------------------------
(* All catalogues of N events over a few magnitudes, days and places (on a    *)
(* line, Step metres apart).                                                  *)
EXTENDS GardnerKnopoff
CONSTANTS N, Mags, Days, Places, Step, Pcts

Abs(x) == IF x < 0 THEN -x ELSE x
Init ==
    \E ms \in [1..N -> Mags], ds \in [1..N -> Days], ps \in [1..N -> Places],
       o \in WindowNames, p \in Pcts :
        GKInit([i \in 1..N |-> [m |-> ms[i], t |-> ds[i]]],
               [i \in 1..N |-> [j \in 1..N |-> Step * Abs(ps[i] - ps[j])]],
               o, p)
Next == GKNext
Spec == Init /\ [][Next]_gkvars /\ WF_gkvars(Next)

Shape == Structural(cat, vcl, flag) /\ SameDayIsAftershock(cat, vcl, flag)
NeverReassigned ==
    [][\A i \in DOMAIN cat : vcl[i] # 0 =>
           vcl'[i] = vcl[i] /\ flag'[i] = flag[i]]_gkvars
Terminates == <>GKDone
=============================================================================
