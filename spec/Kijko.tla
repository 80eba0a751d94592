-------------------------------- MODULE Kijko --------------------------------
(* The iteration of the Kijko estimate: the largest observed magnitude plus   *)
(* the integral up to the last estimate, until the estimate changes by no     *)
(* more than the tolerance or the number of iterations is exceeded. All       *)
(* magnitudes in units the tolerance is a multiple of. The integral is a      *)
(* parameter: integral(j, m) is its value in the j-th iteration, up to m.     *)
EXTENDS Integers, Sequences

VARIABLES obs,     \* largest observed magnitude
          m,       \* estimate
          delta,   \* last integral
          j,       \* iterations made
          step     \* change in the last of them
kvars == <<obs, m, delta, j, step>>

KInit(o) == obs = o /\ m = o /\ delta = 0 /\ j = 0 /\ step = -1

Abs(x) == IF x < 0 THEN -x ELSE x
Iterate(value) ==
    /\ delta' = value /\ m' = obs + value
    /\ step' = Abs((obs + value) - m) /\ j' = j + 1 /\ obs' = obs

(* slack: units a comparison with the tolerance is uncertain by *)
Converged(tol, slack) == j > 0 /\ step <= tol + slack
MayGoOn(tol, slack) == j = 0 \/ step > tol - slack
=============================================================================
