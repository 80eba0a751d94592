------------------------------ MODULE MC_Calendar ------------------------------
(* The calendar walked through day by day.                                    *)
EXTENDS Calendar
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, jd
vars == <<y, m, d, jd>>
Init == y = FirstYear /\ m = 1 /\ d = 1 /\ jd = JulianDay(FirstYear, 1, 1)
Next == /\ y < LastYear \/ m < 12 \/ d < 31
        /\ jd' = jd + 1
        /\ IF d < MonthLength(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ (IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1)
Spec == Init /\ [][Next]_vars

Agrees == jd = JulianDay(y, m, d)
Epochs == /\ (y = 2000 /\ m = 1 /\ d = 1 => jd = 2451545)
          /\ (y = 1858 /\ m = 11 /\ d = 17 => jd = 2400001)
          /\ (y = 1970 /\ m = 1 /\ d = 1 => jd = 2440588)
InYear == DayCount(m, d) \in 0..364
OwnDay == [][y' = y => DayCount(m', d') =
             DayCount(m, d) + (IF m = 2 /\ d = 29 THEN 0 ELSE 1)]_vars
=============================================================================
