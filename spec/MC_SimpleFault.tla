---------------------------- MODULE MC_SimpleFault ----------------------------
(* Traces grown point by point, along meridians and the equator (where the    *)
(* distances of Sphere are exact), with any depths and dip around the limits. *)
EXTENDS SimpleFault
CONSTANTS MaxPoints
Lats == {-90000, 0, 45000}
Lons == {-180000, 0, 180000}
Odd == {-180001, -90001, 90001, 180001}
VARIABLES trace, up, low, dip
vars == <<trace, up, low, dip>>

N(v) == [k |-> "num", v |-> v]
Nan == [k |-> "nan"]
Points == [lon : {N(x) : x \in Lons}, lat : {N(x) : x \in Lats}]
          \cup [lon : {N(x) : x \in Odd} \cup {Nan}, lat : {N(0)}]
          \cup [lon : {N(0)}, lat : {N(x) : x \in Odd} \cup {Nan}]
Depths == {N(-1), N(0), N(1), N(15000), N(Far), Nan}
Dips == {N(-1), N(0), N(1), N(45000), N(90000), N(90001), Nan}
Init == trace = <<>> /\ up \in Depths /\ low \in Depths /\ dip \in Dips
Next == /\ Len(trace) < MaxPoints /\ \E p \in Points : trace' = Append(trace, p)
        /\ UNCHANGED <<up, low, dip>>
Spec == Init /\ [][Next]_vars

Deeper == up.k = "num" /\ low.k = "num" /\ (up.k = "num" /\ low.k = "num" => low.v > up.v)
F == [trace |-> trace, up |-> up, low |-> low, dip |-> dip, deeper |-> Deeper]
Plain(p) == [lon |-> p.lon.v, lat |-> p.lat.v]
\* exact where it is known
D(p, q) == IF OnMeridian(Plain(p), Plain(q)) THEN MeridianAngle(Plain(p), Plain(q))
           ELSE IF OnEquator(Plain(p), Plain(q)) THEN DLon(p.lon.v, q.lon.v) ELSE 0
Rev(t) == [i \in DOMAIN t |-> t[Len(t) + 1 - i]]

\* every limit by itself
Limits == Accepted(F) =>
    /\ Len(trace) >= 2
    /\ \A i \in DOMAIN trace : trace[i].lon.v \in -180000..180000 /\ trace[i].lat.v \in -90000..90000
    /\ up.v >= 0 /\ low.v > up.v /\ dip.v > 0 /\ dip.v <= 90000
NoNan == Accepted(F) => \A x \in {up, low, dip} \cup {trace[i].lon : i \in DOMAIN trace} : x # Nan
\* what refuses a trace refuses every longer one
Monotone == [][ (Len(trace) >= 2 /\ ~TraceOk(trace)) => ~TraceOk(trace') ]_vars
Additive == TraceOk(trace) =>
    /\ \A i \in 2..(Len(trace) - 1) :
         Length(trace, D) = Length(SubSeq(trace, 1, i), D) + Length(SubSeq(trace, i, Len(trace)), D)
    /\ Length(trace, D) = Length(Rev(trace), D)
    /\ Length(trace, D) >= 0
    /\ (\A i \in DOMAIN trace : trace[i] = trace[1]) => Length(trace, D) = 0
\* a point met twice in a row counts for nothing
Repeated == TraceOk(trace) =>
    \A i \in DOMAIN trace :
        Length(SubSeq(trace, 1, i) \o SubSeq(trace, i, Len(trace)), D) = Length(trace, D)
ASSUME \A a \in 1..89 : Sin8(1000 * a) < Sin8(1000 * (a + 1))
=============================================================================
