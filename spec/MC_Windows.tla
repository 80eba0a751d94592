------------------------------ MODULE MC_Windows ------------------------------
(* The published windows, walked through magnitude by magnitude: both grow    *)
(* with the magnitude except where the formula of the time window changes.    *)
EXTENDS Windows
VARIABLES opt, m, space, time
vars == <<opt, m, space, time>>
Init == /\ opt \in WindowNames /\ m = 0
        /\ space = Space(opt, 0) /\ time = Time4(opt, 0)
Next == /\ m < 999 /\ m' = m + 1 /\ opt' = opt
        /\ space' = Space(opt, m + 1) /\ time' = Time4(opt, m + 1)
Spec == Init /\ [][Next]_vars

Positive == space > 0 /\ time > 0
SpaceGrows == [][space' >= space]_vars
TimeGrows == [][m' # 650 => time' >= time]_vars
(* the change of formula at 6.5 shortens that of Gardner and Knopoff only *)
OneChange == [][(m' = 650) => (time' < time <=> opt = "GardnerKnopoff")]_vars
NeverShrinksMuch == m >= 650 /\ opt # "Uhrhammer" => time >= 8000000
=============================================================================
