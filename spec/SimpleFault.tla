------------------------------ MODULE SimpleFault ------------------------------
(* The geometry of a simple fault: when it is accepted, its length, width and *)
(* area. A value is [k |-> "num", v] (in thousandths, rounded away from zero) *)
(* or [k |-> "nan"]; infinite ones are far out of every range.                *)
EXTENDS Sphere

Far == 2000000000
In(x, lo, hi) == x.k = "num" /\ (x.k = "num" => lo <= x.v /\ x.v <= hi)
Above(x, lo) == x.k = "num" /\ (x.k = "num" => x.v > lo)

PointOk(p) == In(p.lon, -180000, 180000) /\ In(p.lat, -90000, 90000)
TraceOk(t) == Len(t) >= 2 /\ \A i \in DOMAIN t : PointOk(t[i])
(* deeper: the lower depth is below the upper one (exactly)                   *)
DepthsOk(up, low, deeper) == In(up, 0, Far) /\ Above(low, 0) /\ deeper
DipOk(d) == In(d, 1, 90000)
Accepted(f) == TraceOk(f.trace) /\ DepthsOk(f.up, f.low, f.deeper) /\ DipOk(f.dip)

(* the whole of the parts *)
SumOf(q) == LET S[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE S[i - 1] + q[i] IN S[Len(q)]
Parts(t, D(_, _)) == [i \in 1..(Len(t) - 1) |-> D(t[i], t[i + 1])]
Length(t, D(_, _)) == SumOf(Parts(t, D))

(* sine of a dip of whole degrees, in 1/100000000 *)
Sin8(dip) == Cos8[91 - (dip \div 1000)]
=============================================================================
