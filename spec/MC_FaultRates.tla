---------------------------- MODULE MC_FaultRates ----------------------------
(* Bins emitted one by one; cumulative rates of the edges relative to the one *)
(* of the maximum magnitude.                                                  *)
EXTENDS FaultRates
CONSTANTS Mins, Steps, Maxs, Bs
VARIABLES min, w, max, b, rates
vars == <<min, w, max, b, rates>>
Init == min \in Mins /\ w \in Steps /\ max \in Maxs /\ b \in Bs /\ rates = <<>>

\* 10^(b (max - edge)) as a fixed point number
Cum(j) == LET p == Pow10((b * ((2 * max) - Edge(min, w, j))) \div 2) IN
          IF p.e >= 0 THEN BMul(p.f, Ten(p.e)) ELSE BDiv(p.f, Ten(-p.e))
Start(j) == min + (j * w)
Next == /\ Start(Len(rates)) < max
        /\ rates' = Append(rates, BSub(Cum(Len(rates)), Cum(Len(rates) + 1)))
        /\ UNCHANGED <<min, w, max, b>>
Spec == Init /\ [][Next]_vars

Done == ~(Start(Len(rates)) < max)
Count == /\ Len(rates) <= Bins(min, w, max)
         /\ Done => Len(rates) = Bins(min, w, max)
Positive == \A j \in DOMAIN rates : rates[j] # <<>>
Close3(x, y) == Close(x, y, 100000000) \/ BLeq(BDist(x, y), Big(10000))
Falling == \A j \in 1..(Len(rates) - 1) :
    /\ BLeq(rates[j + 1], rates[j]) /\ rates[j + 1] # rates[j]
    /\ Close3(rates[j + 1], FixMul(rates[j], Kept(b, w)))
\* every rate is the part of its edge's cumulative rate that is not kept
Part == \A j \in DOMAIN rates :
    Close3(rates[j], FixMul(Cum(j - 1), BSub(Fix(1), Kept(b, w))))
\* together they are the rate between the two outer edges
Balance == BSum(rates) = BSub(Cum(0), Cum(Len(rates)))
\* the maximum magnitude lies in the last bin or on the edge after it
Covered == (Done /\ Len(rates) > 0) =>
    /\ Start(Len(rates) - 1) < max /\ max <= Start(Len(rates))
=============================================================================
