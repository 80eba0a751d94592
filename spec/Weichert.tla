------------------------------- MODULE Weichert -------------------------------
(* The maximum likelihood equation of counts n[i] in magnitude bins of equal  *)
(* width with periods of observation t[i]. In terms of the factor x = 10^(-b  *)
(* width) from a bin to the next the score is of the sign of                  *)
(*     N sum(i t[i] x^i) - sum(i n[i]) sum(t[i] x^i),                         *)
(* and increases with x. x = p/q; all sums are multiplied by q^(bins - 1).    *)
EXTENDS BigNat

RECURSIVE Horner(_, _, _, _, _)
Horner(c, p, q, i, acc) ==   \* acc: sum of the terms above i, over x^i
    IF i = 0 THEN acc
    ELSE Horner(c, p, q, i - 1,
           BAdd(BMul(acc, p), BMul(c[i], BPow(q, Len(c) - i))))
Poly(c, p, q) == Horner(c, p, q, Len(c), <<>>)

Bins(w) == 1..Len(w.n)
SumOf(f) == FoldLeft(LAMBDA a, b : a + b, 0, f)
N(w) == BSum([i \in Bins(w) |-> Big(w.n[i])])
M(w) == BSum([i \in Bins(w) |-> BMul(Big(i - 1), Big(w.n[i]))])
S(w, e, p, q) == Poly([i \in Bins(w) |->
                    BMul(Big(w.t[i]), Big(IF e = 0 THEN 1 ELSE (i - 1)^e))], p, q)
X(w, p, q) == Poly([i \in Bins(w) |-> <<1>>], p, q)

HasSolution(w) ==
    /\ Len(w.n) > 1
    /\ \A i \in Bins(w) : w.t[i] > 0
    /\ \E i \in Bins(w) : i > 1 /\ w.n[i] > 0
    /\ \E i \in Bins(w) : i < Len(w.n) /\ w.n[i] > 0

(* the position of p/q relative to the root *)
AtOrBelow(w, p, q) == BLeq(BMul(N(w), S(w, 1, p, q)), BMul(M(w), S(w, 0, p, q)))
AtOrAbove(w, p, q) == BLeq(BMul(M(w), S(w, 0, p, q)), BMul(N(w), S(w, 1, p, q)))
Root(w, p, q) == AtOrBelow(w, p, q) /\ AtOrAbove(w, p, q)

(* rate of events above the lower edge of the first bin and j bins: num/den;  *)
(* td: t is in units of 1/td years                                            *)
RateNum(w, j, td, p, q) == BProd(<<N(w), Big(td), X(w, p, q), BPow(IF j >= 0 THEN p ELSE q,
                                                  IF j >= 0 THEN j ELSE -j)>>)
RateDen(w, j, p, q) == BMul(S(w, 0, p, q), BPow(IF j >= 0 THEN q ELSE p,
                                                  IF j >= 0 THEN j ELSE -j))
(* the inverse of the squared error of b over the square of the bin width     *)
(* times log(10)^2: num/den                                                   *)
InfoNum(w, p, q) == BMul(N(w), BSub(BMul(S(w, 0, p, q), S(w, 2, p, q)),
                                    BMul(S(w, 1, p, q), S(w, 1, p, q))))
InfoDen(w, p, q) == BMul(S(w, 0, p, q), S(w, 0, p, q))
=============================================================================
