--------------------------------- MODULE MLE ---------------------------------
(* The maximum likelihood recurrence. Magnitudes in hundredths, years in half *)
(* years. par: ev (events [y, m], each of which happened times times), tab    *)
(* (rows [y, m]), dm, ref (reference magnitude), times. The rows of the same  *)
(* year are one period with the smallest of their magnitudes; the periods are *)
(* taken one by one.                                                          *)
EXTENDS Numbers, FiniteSets

VARIABLES par, todo, acc     \* acc: events, sum of N b, sum of N rate
mvars == <<par, todo, acc>>

LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
LOCAL SumOver(S, f(_)) == LET seq == SetToSeq(S) IN
                            FoldLeft(LAMBDA a, i : a + f(i), 0, seq)

Years(p) == {p.tab[r].y : r \in 1..Len(p.tab)}
Mc(p, y) == MinOf({p.tab[r].m : r \in {s \in 1..Len(p.tab) : p.tab[s].y = y}})
Chosen(p, y) == {i \in 1..Len(p.ev) : p.ev[i].y >= y /\ p.ev[i].m >= Mc(p, y)}

(* the recurrence table of a set of events *)
Lower(p, E) == MinOf({(p.ev[i].m \div 10) * 10 : i \in E})
BinIndex(p, E, i) == (p.ev[i].m - Lower(p, E)) \div p.dm
SpanYears2(p, E) == MaxOf({p.ev[i].y : i \in E}) - MinOf({p.ev[i].y : i \in E}) + 2

(* first bin whose centre is not below the completeness magnitude *)
FirstBin(p, E, mc) ==
    LET gap == (2 * mc) - ((2 * Lower(p, E)) + p.dm) IN
    IF gap <= 0 THEN 0 ELSE (gap + (2 * p.dm) - 1) \div (2 * p.dm)

(* events of the bins used, sums of the distances from the first and of their *)
(* squares, in bins                                                           *)
Used(p, y) == {i \in Chosen(p, y) :
                 BinIndex(p, Chosen(p, y), i) >= FirstBin(p, Chosen(p, y), Mc(p, y))}
Dist(p, y, i) == BinIndex(p, Chosen(p, y), i) - FirstBin(p, Chosen(p, y), Mc(p, y))
Sum1(p, y) == SumOver(Used(p, y), LAMBDA i : Dist(p, y, i))
Sum2(p, y) == SumOver(Used(p, y), LAMBDA i : Dist(p, y, i) * Dist(p, y, i))

(* 1 / x, where b = log10(e) / x and x = dm (sum1 / used + 1/2), per          *)
(* magnitude unit                                                             *)
Beta(p, y) == LET u == Cardinality(Used(p, y)) IN
    BDivS(BDivS(Fix(200 * u), p.dm), (2 * Sum1(p, y)) + u)
B(p, y) == FixMul(Beta(p, y), Log10E)
(* (N / years) exp((mc - ref) / x) *)
Rate(p, y) ==
    LET d == Mc(p, y) - p.ref
        ex == FixExp(BDivS(BMul(Beta(p, y), Big(IF d >= 0 THEN d ELSE -d)), 100))
        n == BDivS(Fix(2 * p.times * Cardinality(Chosen(p, y))), SpanYears2(p, Chosen(p, y))) IN
    IF d >= 0 THEN FixMul(n, ex) ELSE BDiv(BMul(n, Ten(12)), ex)

Estimable(p, y) == Used(p, y) # {}

MInit(p) == /\ par = p /\ todo = Years(p)
            /\ acc = [n |-> 0, b |-> <<>>, a |-> <<>>]
Period(y) ==
    /\ y \in todo /\ todo' = todo \ {y} /\ par' = par
    /\ acc' = IF Chosen(par, y) = {} THEN acc
              ELSE LET n == Cardinality(Chosen(par, y)) IN
                   [n |-> acc.n + n,
                    b |-> BAdd(acc.b, BMul(Big(n), B(par, y))),
                    a |-> BAdd(acc.a, BMul(Big(n), Rate(par, y)))]
MNext == \E y \in todo : Period(y)
Averaged == todo = {}
FinalB == BDivS(acc.b, acc.n)
FinalA == BDivS(acc.a, acc.n)
=============================================================================
