----------------------------- MODULE KernelTrace -----------------------------
(* The parts of the Kijko estimate in the real code against Kernel. A case:   *)
(* kind and                                                                   *)
(*  "cdf": xs (numerators), den, ys (10^-8)                                   *)
(*  "width": mags sorted (hundredths), h (hundredths)                         *)
(*  "points": lower, upper (hundredths), n, pts (10^-8)                       *)
(*  "integral": mv, mags, h, neq, value (10^-8).                              *)
EXTENDS Kernel, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
C == Cases[k]
TraceInit == k \in 1..Len(Cases) /\ done = FALSE
\* a number in 10^-8 against one in fixed point
Near(x, v, t) == x >= 0 /\ BLeq(BDist(BMul(Big(x), Ten(4)), v), Big(t))

WrongCdf ==
    IF Len(C.ys) # Len(C.xs) THEN {"number of values"}
    ELSE UNION {IF Near(C.ys[i], CdfAt(C.xs[i], C.den), 30000) THEN {}
                ELSE IF C.xs[i] < (-5) * C.den THEN {"left-tail"} ELSE {"distribution function"}
                : i \in 1..Len(C.xs)}
WrongPoints ==
    IF Len(C.pts) # C.n THEN {"number of points"}
    ELSE LET a == FixExp(BDivS(Fix(C.lower), 100))
             b == FixExp(BDivS(Fix(C.upper), 100))
             e(i) == FixExp(BMul(Big(C.pts[i]), Ten(4))) IN
         UNION {IF C.pts[i] >= 0 /\ Close(BMul(e(i), Big(C.n - 1)),
                         BAdd(BMul(a, Big(C.n - i)), BMul(b, Big(i - 1))), 10000000)
                THEN {} ELSE {"points"} : i \in 1..C.n}
Wrong ==
    IF C.out # "ok" THEN {"no result: " \o C.out}
    ELSE CASE C.kind = "cdf" -> WrongCdf
           [] C.kind = "width" -> IF IsWidth(C.h, C.mags) THEN {} ELSE {"width"}
           [] C.kind = "points" -> WrongPoints
           [] C.kind = "integral" ->
                IF Near(C.value, Integral(C.mv, C.mags, C.h, C.neq), 1000000)
                THEN {} ELSE {"integral"}
Verdict == /\ ~done /\ done' = TRUE /\ k' = k
           /\ LET b == Wrong IN
              IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
              ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceSpec == TraceInit /\ [][Verdict]_<<k, done>>
=============================================================================
