---------------------------- MODULE MC_Cumulative ----------------------------
(* Events are recorded one after another, then the years are walked through   *)
(* with the running moment; the walk is compared with the definition and the  *)
(* relations a user relies on are checked for every small catalogue.          *)
EXTENDS Cumulative, TLC, FiniteSets
CONSTANTS Years, Moments, MaxEvents
VARIABLES events, at, run, hi, lo, phase
vars == <<events, at, run, hi, lo, phase>>
Mo(e) == [i \in 1..Len(e) |-> Big(e[i].m)]
Y(e) == Yearly(e, Mo(e))
Sum(e) == FoldLeft(LAMBDA a, x : a + x.m, 0, e)
Init == events = <<>> /\ at = 0 /\ run = 0 /\ hi = 0 /\ lo = 0 /\ phase = "record"
Record == /\ phase = "record" /\ Len(events) < MaxEvents
          /\ \E y \in Years, m \in Moments : events' = Append(events, [y |-> y, m |-> m])
          /\ UNCHANGED <<at, run, hi, lo, phase>>
Start == phase = "record" /\ events # <<>> /\ phase' = "walk" /\ UNCHANGED <<events, at, run, hi, lo>>
First == CHOOSE y \in {events[i].y : i \in 1..Len(events)} : \A i \in 1..Len(events) : y <= events[i].y
Last_ == CHOOSE y \in {events[i].y : i \in 1..Len(events)} : \A i \in 1..Len(events) : y >= events[i].y
N == (Last_ - First) + 1
\* n times the deviation after a year
Walk == /\ phase = "walk" /\ at < N
        /\ LET r == run + FoldLeft(LAMBDA a, x : IF x.y = First + at THEN a + x.m ELSE a, 0, events)
               d == (N * r) - ((at + 1) * Sum(events)) IN
           /\ run' = r /\ hi' = (IF d > hi THEN d ELSE hi) /\ lo' = (IF d < lo THEN d ELSE lo)
        /\ at' = at + 1 /\ UNCHANGED <<events, phase>>
Finish == phase = "walk" /\ at = N /\ phase' = "done" /\ UNCHANGED <<events, at, run, hi, lo>>
Next == Record \/ Start \/ Walk \/ Finish
Spec == Init /\ [][Next]_vars

Done == phase = "done"
ByDefinition == Done => Big(hi - lo) = RangeN(Y(events))
\* everything released is accounted for
Balanced == Done => run = Sum(events)
OneYear == (Done /\ N = 1) => hi - lo = 0
Below == Done => hi - lo <= (N - 1) * Sum(events)
\* recorded the other way round
Rev(e) == [i \in 1..Len(e) |-> e[(Len(e) + 1) - i]]
OrderFree == Done => RangeN(Y(Rev(events))) = RangeN(Y(events))
\* in other years, and with the years running backwards
Shifted(e, s) == [i \in 1..Len(e) |-> [y |-> e[i].y + s, m |-> e[i].m]]
Mirrored(e) == [i \in 1..Len(e) |-> [y |-> -(e[i].y), m |-> e[i].m]]
YearFree == Done => /\ RangeN(Y(Shifted(events, 7))) = RangeN(Y(events))
                    /\ RangeN(Y(Mirrored(events))) = RangeN(Y(events))
\* ten times the moment (2/3 of a magnitude more)
Tenfold(e) == [i \in 1..Len(e) |-> [y |-> e[i].y, m |-> 10 * e[i].m]]
Scales == Done => RangeN(Y(Tenfold(events))) = BMul(Big(10), RangeN(Y(events)))
\* the whole range is zero only for an even release
EvenOnly == (Done /\ hi = lo) => \A i \in 1..Len(Y(events)) : Y(events)[i] = Y(events)[1]
=============================================================================
