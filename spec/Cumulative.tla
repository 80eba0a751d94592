------------------------------ MODULE Cumulative ------------------------------
(* The cumulative moment estimate: the moments of the years of a catalogue    *)
(* are cumulated from the first to the last year and compared with their      *)
(* average accumulation. In natural numbers of any size: the deviation after  *)
(* i of n years is C_i - i/n C_n; n times it, plus n C_n, is never negative.  *)
EXTENDS Numbers

(* yearly: the moments of consecutive years; year without events: <<>> (0)    *)
Cumulated(yearly) ==
    LET st == FoldLeft(LAMBDA acc, x : [s |-> BAdd(acc.s, x), c |-> Append(acc.c, BAdd(acc.s, x))],
                       [s |-> <<>>, c |-> <<>>], yearly)
    IN st.c
Deviations(yearly) ==
    LET n == Len(yearly)
        c == Cumulated(yearly)
        t == c[n] IN
    [i \in 1..n |-> BAdd(BMul(Big(n), c[i]), BMul(Big(n - i), t))]
MaxB(s) == FoldLeft(LAMBDA a, x : IF BLeq(a, x) THEN x ELSE a, s[1], s)
MinB(s) == FoldLeft(LAMBDA a, x : IF BLeq(x, a) THEN x ELSE a, s[1], s)
(* the number of years times the range of the deviations *)
RangeN(yearly) == LET d == Deviations(yearly) IN BSub(MaxB(d), MinB(d))

(* moments per year of the span of events e[i] with e[i].y, given moment(i) *)
LOCAL MinY(e) == FoldLeft(LAMBDA a, x : IF x.y < a THEN x.y ELSE a, e[1].y, e)
LOCAL MaxY(e) == FoldLeft(LAMBDA a, x : IF x.y > a THEN x.y ELSE a, e[1].y, e)
Yearly(e, mo) ==
    [j \in 1..((MaxY(e) - MinY(e)) + 1) |->
        FoldLeft(LAMBDA a, i : IF e[i].y = (MinY(e) + j) - 1 THEN BAdd(a, mo[i]) ELSE a,
                 <<>>, [i \in 1..Len(e) |-> i])]

(* seismic moment of a magnitude in 10^-2 in units of the moment of 0, and    *)
(* for an estimate in 10^-8, with twelve decimals                             *)
Ln10 == Trim(<<2994, 8509, 3025, 2>>)
MomentOf(m) == FixExp(BDivS(BMul(Ln10, Big(3 * m)), 200))
MomentOfEstimate(u) ==
    FixExp(BDiv(BMul(Ln10, BMul(Big(u), Big(3))), BMul(Big(2), Ten(8))))
(* u (10^-8) is the magnitude of the range for these events *)
IsEstimate(u, e, slack) ==
    LET y == Yearly(e, [i \in 1..Len(e) |-> MomentOf(e[i].m)]) IN
    /\ u >= 0
    /\ Close(BMul(MomentOfEstimate(u), Big(Len(y))), RangeN(y), slack)
=============================================================================
