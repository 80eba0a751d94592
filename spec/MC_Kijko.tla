------------------------------- MODULE MC_Kijko -------------------------------
EXTENDS Kijko, TLC
CONSTANTS Obs, Values, MaxIt, Tols
VARIABLES f, tol, done
vars == <<kvars, f, tol, done>>
\* any integral function on the magnitudes reached, increasing as an integral
\* of a positive function is
Domain == {o + v : o \in Obs, v \in Values \cup {0}}
Init == /\ \E o \in Obs : KInit(o)
        /\ f \in {g \in [Domain -> Values] : \A a, b \in Domain : a <= b => g[a] <= g[b]}
        /\ tol \in Tols /\ done = FALSE
Next == \/ /\ ~done /\ j <= MaxIt /\ MayGoOn(tol, 0) /\ Iterate(f[m])
           /\ UNCHANGED <<f, tol, done>>
        \/ /\ ~done /\ (Converged(tol, 0) \/ j > MaxIt) /\ done' = TRUE
           /\ UNCHANGED <<kvars, f, tol>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NotBelow == m >= obs
IsObsPlus == m = obs + delta
\* the estimate only grows with such a function
Grows == [][m' >= m]_vars
AtConvergence == (done /\ j <= MaxIt) => step <= tol
Bounded == j <= MaxIt + 1
Ends == <>done
\* a fixed point of the integral is reported as such when found
Fixed == (done /\ step = 0) => f[m] = delta
=============================================================================
