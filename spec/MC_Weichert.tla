----------------------------- MODULE MC_Weichert -----------------------------
(* The solution found by bisection between two bounds; its uniqueness, the    *)
(* exact families and the invariances of the equation, on small counts.       *)
EXTENDS Weichert, TLC
CONSTANTS MaxBins, Periods, Counts, Q, Top, Families

VARIABLES w, lo, hi
vars == <<w, lo, hi>>
ModelFamilies == {<<1, 2>>, <<1, 10>>, <<3, 2>>}
Init == /\ \E m \in 1..MaxBins : \E t \in [1..m -> Periods], n \in [1..m -> Counts] :
              w = [t |-> t, n |-> n]
        /\ lo = 0 /\ hi = Top
Half == /\ HasSolution(w) /\ hi - lo > 1
        /\ LET m == (lo + hi) \div 2 IN
           \/ AtOrBelow(w, Big(m), Big(Q)) /\ lo' = m /\ hi' = hi
           \/ AtOrAbove(w, Big(m), Big(Q)) /\ hi' = m /\ lo' = lo
        /\ w' = w
Spec == Init /\ [][Half]_vars

Bracket == HasSolution(w) => AtOrBelow(w, Big(lo), Big(Q)) /\
              (hi = Top \/ AtOrAbove(w, Big(hi), Big(Q)))
\* the score changes its sign once
Unique == (lo = 0 /\ hi = Top /\ HasSolution(w)) =>
    \A a, b \in 1..8 : a < b => ~(AtOrAbove(w, Big(a), Big(4)) /\ AtOrBelow(w, Big(b), Big(4)))
\* no sign change without a solution
NoRoot == (lo = 0 /\ hi = Top /\ ~HasSolution(w) /\ Len(w.n) > 1
           /\ N(w) # <<>> /\ \A i \in Bins(w) : w.t[i] > 0) =>
    \A a \in 1..8 : ~Root(w, Big(a), Big(4))
\* counts on a relation solve the equation with its factor and have its rate
Exact == (lo = 0 /\ hi = Top) => \A f \in Families :
    LET c == [t |-> w.t, n |-> [i \in Bins(w) |->
                w.t[i] * (f[1]^(i - 1)) * (f[2]^(Len(w.n) - i))]] IN
    Len(w.n) > 1 => /\ Root(c, Big(f[1]), Big(f[2]))
       /\ BMul(RateNum(c, 0, 1, Big(f[1]), Big(f[2])), <<1>>) =
          BMul(RateDen(c, 0, Big(f[1]), Big(f[2])), X(w, Big(f[1]), Big(f[2])))
\* orders of magnitude do not matter
Scales == (lo = 0 /\ hi = Top /\ HasSolution(w)) =>
    LET c == [w EXCEPT !.n = [i \in Bins(w) |-> 100000 * w.n[i]]]
        d == [w EXCEPT !.t = [i \in Bins(w) |-> 1000 * w.t[i]]] IN
    \A a \in {1, 3, 4, 7} :
        /\ AtOrBelow(w, Big(a), Big(4)) = AtOrBelow(c, Big(a), Big(4))
        /\ AtOrBelow(w, Big(a), Big(4)) = AtOrBelow(d, Big(a), Big(4))
        /\ InfoNum(d, Big(a), Big(4)) = BMul(InfoNum(w, Big(a), Big(4)), Big(1000000))
\* big numbers are numbers
Arithmetic == (lo = 0 /\ hi = Top) => \A a, b \in {0, 1, 9999, 10000, 30001, 99999} :
    /\ BAdd(Big(a), Big(b)) = Big(a + b)
    /\ (a * 20000) \div 20000 = a => BMul(Big(a), Big(20000)) = Big(a * 20000)
    /\ BLeq(Big(a), Big(b)) = (a <= b)
    /\ a >= b => BSub(Big(a), Big(b)) = Big(a - b)
=============================================================================
