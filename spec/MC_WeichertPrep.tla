--------------------------- MODULE MC_WeichertPrep ---------------------------
EXTENDS WeichertPrep, TLC
CONSTANTS Years, Mags, NEvents, RowYears, RowMags, NRows, Widths, Spans

Event == [y : Years, m : Mags]
Row == [y : RowYears, m : RowMags]
Init == \E e \in UNION {[1..k -> Event] : k \in 1..NEvents},
           t \in UNION {[1..k -> Row] : k \in 1..NRows}, d \in Widths, s \in Spans :
          /\ \A i \in 2..Len(t) : t[i - 1].m <= t[i].m
          /\ WInit([ev |-> e, tab |-> t, dm |-> d, dt |-> s, times |-> 1])
Spec == Init /\ [][CountNext]_wvars

\* every event has its bin
HaveBins == \A i \in 1..Len(par.ev) : BinOf(par, par.ev[i]) \in 1..nb
InBin == \A i \in 1..Len(par.ev) : LET j == BinOf(par, par.ev[i]) m == Rounded(par.ev[i].m) IN
            BinStart(par, j) <= m /\ m < BinStart(par, j + 1)
Final == Counted => n = [j \in 1..nb |-> Expected(j)]
Sum(f) == LET S[j \in 0..nb] == IF j = 0 THEN 0 ELSE S[j - 1] + f[j] IN S[nb]
Total == Counted => Sum(n) = Cardinality({i \in 1..Len(par.ev) : ~Incomplete(par, par.ev[i])})
\* the last bin: at most the one holding the largest and one or two empty
EndsClose == LET over == 2 * (BinStart(par, nb + 1) - Largest(par)) IN
                over >= par.dm /\ over <= 3 * par.dm
\* a table of one row at or below everything excludes nothing
LowTable == (Counted /\ \A r \in 1..Len(par.tab) : par.tab[r].m <= Start(par)) =>
                Sum(n) = Len(par.ev)
=============================================================================
