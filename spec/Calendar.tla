------------------------------- MODULE Calendar -------------------------------
(* Days of the Gregorian calendar and of the 365 day year of decimal years.   *)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Lengths == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
MonthLength(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE Lengths[m]
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>

(* days of the 365 day year before this day; 29 February counts as 1 March *)
DayCount(m, d) == Before[m] + d - 1

(* Julian day number of the day that starts at 0h: days since the epoch, the  *)
(* day of 1 January 1583 (Gregorian) being 2299239. Counted year by year.     *)
YearDays(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
JulianDay(y, m, d) ==
    2299239 + (YearDays(y) - YearDays(1583))
    + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
=============================================================================
