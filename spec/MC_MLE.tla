------------------------------- MODULE MC_MLE -------------------------------
EXTENDS MLE, TLC
CONSTANTS EvYears, Mags, NEvents, RowYears, RowMags, NRows, Widths, Refs

Event == [y : EvYears, m : Mags]
Row == [y : RowYears, m : RowMags]
Init == \E e \in UNION {[1..k -> Event] : k \in 1..NEvents},
           t \in UNION {[1..k -> Row] : k \in 1..NRows}, d \in Widths, r \in Refs :
          MInit([ev |-> e, tab |-> t, dm |-> d, ref |-> r, times |-> 1])
Next == \E y \in todo : (Chosen(par, y) = {} \/ Estimable(par, y)) /\ Period(y)
Spec == Init /\ [][Next]_mvars

Events == UNION {Chosen(par, y) : y \in Years(par)}
\* the average lies between the periods
LOCAL Have == {y \in Years(par) : Chosen(par, y) # {}}
Between == (Averaged /\ acc.n > 0) =>
    /\ \E y \in Have : BLeq(B(par, y), BAdd(FinalB, <<1>>))
    /\ \E y \in Have : BLeq(FinalB, BAdd(B(par, y), <<1>>))
    /\ \E y \in Have : BLeq(Rate(par, y), BAdd(FinalA, <<1>>))
    /\ \E y \in Have : BLeq(FinalA, BAdd(Rate(par, y), <<1>>))
\* a table of one period is that period
Single == (Averaged /\ acc.n > 0 /\ Cardinality(Have) = 1) =>
    FixClose(FinalB, B(par, CHOOSE y \in Have : TRUE), 1000000)
\* at the completeness magnitude the rate is the number per year
AtMc == \A y \in Have : (Estimable(par, y) /\ Mc(par, y) = par.ref) =>
    FixClose(Rate(par, y), BDivS(Fix(2 * Cardinality(Chosen(par, y))),
                                 SpanYears2(par, Chosen(par, y))), 1000000)
\* larger magnitudes, smaller b
Positive == \A y \in Have : Estimable(par, y) => B(par, y) # <<>> /\
    BLeq(B(par, y), BDivS(BMul(BMul(Big(200), Log10E), <<1>>), par.dm))
Weights == Averaged => acc.n = FoldLeft(LAMBDA a, y : a + Cardinality(Chosen(par, y)), 0,
                                        SetToSeq(Years(par)))
\* the exponential
ASSUME \A a \in {0, 1, 700, 2303} : LET x == BDivS(Fix(a), 1000) IN
    FixClose(FixMul(FixExp(x), FixExp(x)), FixExp(BAdd(x, x)), 1000000)
=============================================================================
