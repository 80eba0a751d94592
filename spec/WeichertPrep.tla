----------------------------- MODULE WeichertPrep -----------------------------
(* Counting of events in bins of time and magnitude for the Weichert          *)
(* algorithm. Magnitudes in hundredths, years in half years.                  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES par,     \* [ev: seq of [y, m], tab: seq of [y, m], dm, dt,
                 \*  times: how often each of the events happened]
          nb,      \* number of magnitude bins
          left,    \* events not counted yet (indices)
          n        \* counts of the bins
wvars == <<par, nb, left, n>>

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MaxOr(S, d) == IF S = {} THEN d ELSE MaxOf(S)

(* magnitudes are rounded to tenths *)
Rounded(m) == ((m + 5) \div 10) * 10
Start(p) == MinOf({Rounded(p.ev[i].m) : i \in 1..Len(p.ev)})
Largest(p) == MaxOf({Rounded(p.ev[i].m) : i \in 1..Len(p.ev)})
FirstYear(p) == MinOf({p.ev[i].y : i \in 1..Len(p.ev)})
LastYear(p) == MaxOf({p.ev[i].y : i \in 1..Len(p.ev)})

(* the bins go on to half a bin beyond the largest magnitude; floating point  *)
(* may add one when that ends exactly there                                   *)
Needed(p) == (((2 * (Largest(p) - Start(p))) + p.dm) + (2 * p.dm) - 1) \div (2 * p.dm)
BinNumbers(p) ==
    {Needed(p)} \cup (IF 2 * Needed(p) * p.dm = (2 * (Largest(p) - Start(p))) + p.dm
                      THEN {Needed(p) + 1} ELSE {})

BinOf(p, e) == ((Rounded(e.m) - Start(p)) \div p.dm) + 1
BinStart(p, j) == Start(p) + ((j - 1) * p.dm)
TimeStart(p, e) == FirstYear(p) + (((e.y - FirstYear(p)) \div p.dt) * p.dt)

Incomplete(p, e) ==
    \E r \in 1..Len(p.tab) : /\ p.tab[r].y > TimeStart(p, e)
                             /\ p.tab[r].m > BinStart(p, BinOf(p, e))

(* years of observation of a bin; 0: no row covers its magnitude *)
RowOf(p, j) == MaxOr({r \in 1..Len(p.tab) : p.tab[r].m <= BinStart(p, j)}, 0)
Period(p, j) == IF RowOf(p, j) = 0 THEN 0
                ELSE LastYear(p) - p.tab[RowOf(p, j)].y + 2

WInit(p) == /\ par = p /\ nb \in BinNumbers(p)
            /\ left = 1..Len(p.ev) /\ n = [j \in 1..nb |-> 0]
Count(i) ==
    /\ i \in left /\ left' = left \ {i}
    /\ n' = IF Incomplete(par, par.ev[i]) THEN n
            ELSE [n EXCEPT ![BinOf(par, par.ev[i])] = @ + par.times]
    /\ UNCHANGED <<par, nb>>
CountNext == \E i \in left : Count(i)
Counted == left = {}

(* what the counts come to, whatever the order *)
Expected(j) == par.times * Cardinality({i \in 1..Len(par.ev) :
                  BinOf(par, par.ev[i]) = j /\ ~Incomplete(par, par.ev[i])})
=============================================================================
