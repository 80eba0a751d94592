------------------------------ MODULE KijkoTrace ------------------------------
(* Estimates of the real code against Kijko. A case: mags (hundredths), sig   *)
(* (thousandths), neq, given ([has, m, s]: a largest observed magnitude given *)
(* by the caller), tol, maxit, h (kernel width in hundredths of the events    *)
(* used), orbit (values of the integral of the events used, iterated, in      *)
(* units of 10^-8), out, got, sigma (10^-8), same: results for other orders   *)
(* of the events and other small events, kept.                                *)
EXTENDS Kijko, TLC, Json, IOUtils, FiniteSets, BigNat

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
tvars == <<kvars, k, done>>
C == Cases[k]
U == 1000000              \* hundredths in units
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Largest(c) == IF c.given.has THEN c.given.m
              ELSE MaxOf({c.mags[i] : i \in 1..Len(c.mags)})
Sigmas(c) == IF c.given.has THEN {c.given.s}
             ELSE {c.sig[i] : i \in {n \in 1..Len(c.mags) : c.mags[n] = Largest(c)}}

TraceInit == k \in 1..Len(Cases) /\ done = FALSE /\ KInit(U * Largest(Cases[k]))

Judged == C.out = "ok" /\ C.h > 0
Follow == /\ ~done /\ Judged /\ j <= C.maxit /\ j < Len(C.orbit) /\ MayGoOn(C.tol, 3)
          /\ Iterate(C.orbit[j + 1]) /\ UNCHANGED <<k, done>>

Near(x, y, t) == Abs(x - y) <= t
\* sigma^2 = sig^2 + delta^2 within a millionth or so; sigma in 10^-8
Total(sig) == C.sigma >= 0 /\
              LET s == BMul(Big(C.sigma), Big(C.sigma))
                  e == BAdd(BMul(BMul(Big(sig), Ten(5)), BMul(Big(sig), Ten(5))),
                            BMul(Big(Abs(delta)), Big(Abs(delta)))) IN
              Close(s, e, 100000) \/ BLeq(BDist(s, e), Ten(6))
Wrong ==
    IF C.out # "ok" THEN {"no result: " \o C.out}
    ELSE IF C.h = 0 THEN {}
    ELSE (IF C.got >= (U * Largest(C)) - 1 THEN {} ELSE {"below the largest observed"})
      \cup (IF Near(C.got, m, 100) THEN {} ELSE {"not observed plus integral at the end of the iteration"})
      \cup (IF \E s \in Sigmas(C) : Total(s) THEN {} ELSE {"uncertainty"})
      \cup (IF \A x \in 1..Len(C.same) : Near(C.same[x].got, C.got, 100)
            THEN {} ELSE {"other events or order: magnitude"})
      \cup (IF \A x \in 1..Len(C.same) : C.same[x].free \/ Near(C.same[x].sigma, C.sigma, 100)
            THEN {} ELSE {"other events or order: uncertainty"})
      \cup (IF C.kept THEN {} ELSE {"arguments modified"})
Stop ==
    /\ ~done /\ (~Judged \/ Converged(C.tol, 3) \/ j >= C.maxit) /\ done' = TRUE
    /\ UNCHANGED <<kvars, k>>
    /\ IF Wrong = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, Wrong>>))
TraceNext == Follow \/ Stop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
