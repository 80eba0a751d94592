------------------------------- MODULE Windows -------------------------------
(* Space and time windows of an event, by magnitude in hundredths.            *)
EXTENDS Integers, Sequences, WindowTables

WindowNames == {"GardnerKnopoff", "Gruenthal", "Uhrhammer"}

\* Radius of the space window in metres.
Space(opt, m) == CASE opt = "GardnerKnopoff" -> SpaceGK[m + 1]
                   [] opt = "Gruenthal" -> SpaceGR[m + 1]
                   [] opt = "Uhrhammer" -> SpaceUH[m + 1]

\* Length of the time window in 1/10000 day.
Time4(opt, m) == CASE opt = "GardnerKnopoff" -> TimeGK[m + 1]
                   [] opt = "Gruenthal" -> TimeGR[m + 1]
                   [] opt = "Uhrhammer" -> TimeUH[m + 1]

\* dt whole days after (before, if negative) an event of magnitude m: inside
\* its time window, the foreshock window being pct percent of it?
InTime(opt, m, pct, dt) ==
    /\ dt <= Time4(opt, m) \div 10000
    /\ -dt <= (Time4(opt, m) * pct) \div 1000000
=============================================================================
