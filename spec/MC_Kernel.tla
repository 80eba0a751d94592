------------------------------ MODULE MC_Kernel ------------------------------
(* A walk along the real axis: the distribution function rises from 0 to 1,   *)
(* symmetrically; widths and integrals of small sets of magnitudes.           *)
EXTENDS Kernel, TLC, FiniteSets
CONSTANTS Steps, Mags, MaxN
VARIABLES i, s
Init == i = -Steps /\ s \in {t \in UNION {[1..n -> Mags] : n \in 2..MaxN} :
                            \A a \in 1..(Len(t) - 1) : t[a] <= t[a + 1]}
Next == i < Steps /\ i' = i + 1 /\ s' = <<>>   \* the walk goes on without them
Spec == Init /\ [][Next]_<<i, s>>
At(n) == CdfAt(n * 60, Steps * 10)       \* from -6 to 6
Rises == i < Steps => BLeq(At(i), At(i + 1))
Symmetric == BLeq(BDist(BAdd(At(i), At(-i)), One), Big(10))
Between == BLeq(At(i), One)
Ends == BLeq(At(-Steps), Big(0)) /\ BLeq(One, At(Steps))
Sorted == \A a \in 1..(Len(s) - 1) : s[a] <= s[a + 1]
\* exactly one width (two where rounding is a tie)
Width == (i = -Steps /\ Sorted) =>
    LET W == {h \in 0..120 : IsWidth(h, s)} IN Cardinality(W) \in {1, 2}
\* the integral is positive, less than the interval, and falls with the power
IntegralBounds == (i = -Steps /\ Sorted /\ s[1] < s[Len(s)]) =>
    LET mv == <<s[1], (s[1] + s[Len(s)]) \div 2, s[Len(s)]>>
        v(n) == Integral(mv, s, 60, n) IN
    /\ BLeq(v(1), BDivS(Fix(s[Len(s)] - s[1]), 100))
    /\ BLeq(v(2), v(1)) /\ BLeq(v(5), v(2)) /\ v(5) # <<>>
=============================================================================
