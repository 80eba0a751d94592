----------------------------- MODULE MC_Afteran -----------------------------
EXTENDS Afteran
CONSTANTS N, Mags, Days, Places, Step, Wins

Abs(x) == IF x < 0 THEN -x ELSE x
Init ==
    \E ms \in [1..N -> Mags], ds \in [1..N -> Days], ps \in [1..N -> Places],
       o \in WindowNames, w \in Wins :
      LET c == [i \in 1..N |-> [m |-> ms[i], t |-> ds[i]]] IN
      \E ord \in Orders(c) :
        AFInit(c, [i \in 1..N |-> [j \in 1..N |-> Step * Abs(ps[i] - ps[j])]],
               o, w, ord)
Next == AFNext
Spec == Init /\ [][Next]_afvars /\ WF_afvars(Next)

Shape == Structural(cat, vcl, flag)
NeverReassigned ==
    [][\A i \in DOMAIN cat : vcl[i] # 0 =>
           vcl'[i] = vcl[i] /\ flag'[i] = flag[i]]_afvars
Terminates == <>AFDone
=============================================================================
