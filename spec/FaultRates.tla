------------------------------ MODULE FaultRates ------------------------------
(* The activity rates of a fault (Anderson and Luco, first type): magnitudes  *)
(* and bin widths in thousandths, b values and the second moment coefficient  *)
(* in thousandths, the first one in hundredths, the aseismic part in          *)
(* thousandths; slip, modulus, displacement ratio and fault width are numbers.*)
EXTENDS Numbers

(* bins from the minimum magnitude on, as long as they begin below the maximum*)
Bins(min, w, max) == IF max <= min THEN 0 ELSE ((max - min) + (w - 1)) \div w
(* their lower edges, half a bin below, in half thousandths *)
Edge(min, w, j) == ((2 * min) - w) + (2 * j * w)

Ln10 == Trim(<<2994, 8509, 3025, 2>>)
(* ten to the power of x millionths: f * 10^(e - 12) *)
Pow10(x) == [f |-> FixExp(FixMul(FixRatio(Big(x % 1000000), Big(1000000)), Ln10)),
             e |-> x \div 1000000]
(* what is left from a bin to the next, a fixed point number: 10^(-b w) *)
Kept(b, w) == LET p == Pow10(-(b * w)) IN BDiv(p.f, Ten(-p.e))

(* the exponent of ten in the square of the cumulative rate at an edge        *)
Exponent(p, j) == ((15000000 - (10000 * p.c0)) + (p.b * ((2 * p.max) - Edge(p.min, p.w, j))))
                  - (p.c1 * p.max)
(* rate^2 dlr (10 b)^2 = (c1 - b)^2 slip^2 smod width 10^Exponent (1 - q)^2   *)
Balanced(p, j, rate, lost, n) ==
    LET t == Pow10(Exponent(p, j)) IN
    SameNum([m |-> 1, e |-> (2 * rate.e) + p.dlr.e + 8],
            BProd(<<Big(rate.m), Big(rate.m), Big(p.dlr.m), Big(p.b), Big(p.b)>>),
            [m |-> 1, e |-> ((2 * p.slip.e) + p.smod.e + p.width.e + t.e) - 36],
            BProd(<<Big(p.c1 - p.b), Big(p.c1 - p.b), Big(p.slip.m), Big(p.slip.m),
                    Big(1000 - p.aseismic), Big(1000 - p.aseismic),
                    Big(p.smod.m), Big(p.width.m), t.f, lost, lost>>), n)
=============================================================================
