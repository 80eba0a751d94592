-------------------------------- MODULE Stepp --------------------------------
(* Completeness analysis after Stepp, bin after bin from the smallest         *)
(* magnitude. Events are [y, m], m in hundredths; dm bin width in hundredths, *)
(* dt length of the time windows in years, tol sensitivity in thousandths,    *)
(* lock the increment lock.                                                   *)
(*                                                                            *)
(* Period i (1..nt) is the last i*dt years. In a bin with n(i) events in      *)
(* period i the logarithm of the standard deviation of the rate changes with  *)
(* that of the period with slope log(n(i+1)/n(i)) / (2 log(T(i+1)/T(i))) - 1; *)
(* a bin without events has the smallest representable deviation, so the      *)
(* first events of a bin are a change of slope larger than any sensitivity.   *)
(* The period of the bin is the last one after which the slope changes by     *)
(* more than the sensitivity; a change within rounding of it may count.       *)
EXTENDS Integers, Sequences, FiniteSets, LogTable

VARIABLES par, nb, bin, loc, rows
stvars == <<par, nb, bin, loc, rows>>

MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x
DivUp(a, b) == -((-a) \div b)

Ev == par.events
Years == {Ev[i].y : i \in 1..Len(Ev)}
Mags == {Ev[i].m : i \in 1..Len(Ev)}
Low == 10 * (MinOf(Mags) \div 10)
High == 10 * DivUp(MaxOf(Mags), 10)
End == MaxOf(Years)
Span == End - MinOf(Years) + 1
Periods == Span \div par.dt
T(i) == i * par.dt
Edge(j) == Low + (j - 1) * par.dm

(* number of bins: an edge at the largest magnitude may start one more *)
BinCounts == LET q == (High - Low) \div par.dm IN
             IF (High - Low) % par.dm = 0 THEN {q, q + 1} ELSE {q + 1}

InBin(e, j) == /\ e.m >= Edge(j)
               /\ j = nb \/ e.m < Edge(j + 1)
Counts(j) == [i \in 1..Periods |->
    Cardinality({e \in 1..Len(Ev) : Ev[e].y >= End - T(i) /\ InBin(Ev[e], j)})]

(* a / b in 1/100000, for |a| < 10^9, 0 < b < 10^8 *)
RECURSIVE Digits(_, _, _)
Digits(r, b, n) == IF n = 0 THEN 0
    ELSE ((10 * r) \div b) * (CASE n = 5 -> 10000 [] n = 4 -> 1000 [] n = 3 -> 100
                               [] n = 2 -> 10 [] n = 1 -> 1)
         + Digits((10 * r) % b, b, n - 1)
Quotient(a, b) == IF a < 0 THEN -((-a \div b) * 100000 + Digits((-a) % b, b, 5))
                  ELSE (a \div b) * 100000 + Digits(a % b, b, 5)

(* slopes of the counts over one step in 1/100000 (the common part -1 drops   *)
(* out of the changes)                                                        *)
Slope(n, i) == Quotient((Log8[n[i + 1]] - Log8[n[i]]) \div 2,
                        Log8[T(i + 1)] - Log8[T(i)])
Change(n, i) == Abs(Slope(n, i + 1) - Slope(n, i))
(* what rounding of the logarithms can make of a change *)
Margin(n, i) == 30 + (Abs(Slope(n, i)) + Abs(Slope(n, i + 1))) \div 10000
(* no events in all three periods: no change; no events in the first: the     *)
(* change of a deviation that was not there exceeds every sensitivity         *)
Exceeds(n, i) == IF n[i + 2] = 0 THEN FALSE
                 ELSE IF n[i] = 0 THEN TRUE
                 ELSE Change(n, i) > par.tol * 100 + Margin(n, i)
May(n, i) == IF n[i + 2] = 0 \/ n[i] = 0 THEN Exceeds(n, i)
             ELSE Change(n, i) > par.tol * 100 - Margin(n, i)

(* the possible last changes, 0 when there is none *)
LastChanges(n) ==
    LET tests == 1..(Periods - 2)
        sure == {i \in tests : Exceeds(n, i)}
        last == IF sure = {} THEN 0 ELSE MaxOf(sure)
    IN {last} \cup {i \in tests : i > last /\ May(n, i)}

SteppInit(p) ==
    /\ par = p /\ bin = 1 /\ loc = 1 /\ rows = <<>>
    /\ nb \in BinCounts
NextBin ==
    /\ bin <= nb
    /\ \E c \in LastChanges(Counts(bin)) :
         LET own == IF c = 0 THEN loc ELSE c
             kept == IF par.lock /\ bin > 1 /\ own < loc THEN loc ELSE own
         IN /\ loc' = kept
            /\ rows' = Append(rows, [y |-> End - T(kept), m |-> Edge(bin)])
    /\ bin' = bin + 1 /\ UNCHANGED <<par, nb>>
SteppDone == bin > nb

----------------------------------------------------------------------------
OneRowPerBin == SteppDone => Len(rows) = nb
Increasing == \A i \in 1..Len(rows) : rows[i].m = Low + (i - 1) * par.dm
YearsInSpan == \A i \in 1..Len(rows) :
    /\ rows[i].y <= End - par.dt /\ rows[i].y >= MinOf(Years) - 1
Locked == par.lock => \A i \in 1..(Len(rows) - 1) : rows[i + 1].y <= rows[i].y
EveryEventOnce == \A e \in 1..Len(Ev) :
    nb = 0 \/ Cardinality({j \in 1..nb : InBin(Ev[e], j)}) = 1
CountsGrow == ~SteppDone => LET n == Counts(bin) IN
    \A i \in 1..(Periods - 1) : n[i] <= n[i + 1]
=============================================================================
