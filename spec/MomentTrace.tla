----------------------------- MODULE MomentTrace -----------------------------
(* Estimates of the real code against Cumulative. Cases:                      *)
(*  "single": events [y, m], got (10^-8)                                      *)
(*  "exact": the same from the bootstrap without uncertainty, and sd (10^-8)  *)
(*  "boot": events, all those which count of magnitude m in the first of two  *)
(*     years, count of them, sigma (10^-3), samples; got, sd (10^-8), again:  *)
(*     the result of another call with the same seed.                         *)
(*  "quad": events, of which only the u-th is uncertain, by sigma (10^-2, a   *)
(*     multiple of 4); grid: 37 estimates with that magnitude changed by j/4  *)
(*     sigma, j in -18..18; samples; got, sd                                  *)
(*  "small": one event counts; mean of the squared deviations (10^-6) of many *)
(*     (calls) bootstraps of two samples                                      *)
(*  "normal": one event counts; of n samples up are above the estimate,       *)
(*     beyond[1..4] farther from it than 0.5, 1, 2, 2.5 sigma                 *)
(* Magnitudes may be counted from another than 0 (moments are relative).      *)
(* kept: whether the arguments were left as they were.                        *)
EXTENDS Cumulative, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
C == Cases[k]
TraceInit == k \in 1..Len(Cases) /\ done = FALSE

(* what a bootstrap of one event has: mean and deviation of a normal variable,*)
(* within 6 standard errors; of many equal events: the moment of each is      *)
(* lognormal with s = 1.5 ln(10) sigma, the sum has the relative variance     *)
(* (exp(s^2) - 1)/n. In 10^-8, sigma <= 0.2.                                  *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET mid == (lo + hi) \div 2 IN
                        IF mid * mid <= x THEN Root(x, mid, hi) ELSE Root(x, lo, mid)
ISqrt(x) == Root(x, 0, 46340)
S2 == (11929 * ((C.sigma * C.sigma) \div 10)) \div 10000    \* s^2 in 10^-4: 11.929 sigma^2
\* exp(x) - 1 to the fourth order, x in 10^-4
Exp1(x) == ((x + ((x * x) \div 20000)) + ((((x * x) \div 10000) * x) \div 60000))
\* in 10^-5: (2/3) log10(e) sqrt(variance / count)
RelSd == IF C.count = 1 THEN 100 * C.sigma
         ELSE (28953 * ISqrt((Exp1(S2) * 10000) \div C.count)) \div 10000
Shift == IF C.count = 1 THEN 0 ELSE (28953 * (S2 \div 2)) \div 10000
Root1000(n) == ISqrt(n * 10000)                  \* 100 sqrt(n)
BootWrong ==
    LET sd == C.sd \div 1000
        mean == (C.got - C.base) \div 1000
        within == ((600 * RelSd) \div Root1000(C.samples)) + (IF C.count = 1 THEN 20 ELSE 250) IN
    (IF Abs(mean - Shift) <= within THEN {} ELSE {"bootstrap mean"})
    \cup (IF 100 * sd >= 75 * RelSd /\ 100 * sd <= 130 * RelSd THEN {} ELSE {"bootstrap deviation"})
    \cup (IF C.again = <<C.got, C.sd>> THEN {} ELSE {"seed"})
(* mean and deviation over the normal distribution, by the trapezoidal rule   *)
(* over the (verified) estimates                                              *)
QuadWrong ==
    LET at(j) == [i \in 1..Len(C.events) |->
                    IF i = C.u THEN [y |-> C.events[i].y, m |-> C.events[i].m + (j * (C.sigma \div 4))]
                    ELSE C.events[i]]
        w == [i \in 1..37 |-> FixInv(FixExp(BDivS(Fix((i - 19) * (i - 19)), 32)))]
        low == C.grid[1]                       \* the smallest, if they are right
        d == [i \in 1..37 |-> Big(C.grid[i] - low)]
        all == BSum(w)
        mean == BDiv(BSum([i \in 1..37 |-> BMul(w[i], d[i])]), all)
        sq == BDiv(BSum([i \in 1..37 |-> BMul(w[i], BMul(BDist(d[i], mean), BDist(d[i], mean)))]), all)
        sd2 == BMul(Big(C.sd), Big(C.sd))
        off == BDist(Big(C.got - low), mean) IN
    IF \E j \in -18..18 : ~IsEstimate(C.grid[j + 19], at(j), 5000000) \/ C.grid[j + 19] < low
    THEN {"estimate"}
    ELSE (IF /\ C.got >= low
             /\ BLeq(BMul(BMul(off, off), Big(C.samples)), BAdd(BMul(Big(36), sq), Ten(12)))
          THEN {} ELSE {"bootstrap mean"})
         \cup (IF /\ BLeq(BMul(Big(60), sq), BMul(Big(100), sd2))
                  /\ BLeq(BMul(Big(100), sd2), BMul(Big(165), sq))
               THEN {} ELSE {"bootstrap deviation"})
SmallWrong ==
    LET v == C.sigma * C.sigma IN             \* 10^-6
    IF 100 * Abs(C.mean - v) <= 16 * v THEN {} ELSE {"deviation of few samples"}
(* parts of a normal distribution in 10^-4 and 6 standard errors of 6000      *)
Parts == <<6171, 3173, 455, 124>>
Errors == <<377, 361, 161, 86>>
NormalWrong ==
    IF C.n # 6000 THEN {"number of samples"}
    ELSE IF /\ Abs(((C.up * 100) \div 60) - 5000) <= 390
            /\ \A i \in 1..4 : Abs(((C.beyond[i] * 100) \div 60) - Parts[i]) <= Errors[i]
    THEN {} ELSE {"not a normal deviate"}
Wrong ==
    (IF C.kept THEN {} ELSE {"arguments modified"})
    \cup (IF C.out # "ok" THEN {"no result: " \o C.out}
    ELSE CASE C.kind = "single" -> IF IsEstimate(C.got, C.events, 5000000) THEN {} ELSE {"estimate"}
           [] C.kind = "exact" ->
                (IF IsEstimate(C.got, C.events, 5000000) THEN {} ELSE {"bootstrapped estimate"})
                \cup (IF C.sd \in 0..1 THEN {} ELSE {"bootstrapped error"})
           [] C.kind = "boot" ->
                (IF IsEstimate(C.base, C.events, 5000000) THEN {} ELSE {"estimate"}) \cup BootWrong
           [] C.kind = "quad" -> QuadWrong
           [] C.kind = "small" -> SmallWrong
           [] C.kind = "normal" -> NormalWrong)
Verdict == /\ ~done /\ done' = TRUE /\ k' = k
           /\ LET b == Wrong IN
              IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
              ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceSpec == TraceInit /\ [][Verdict]_<<k, done>>
=============================================================================
