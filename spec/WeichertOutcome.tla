---------------------------- MODULE WeichertOutcome ----------------------------
(* Observed results against the equations of Weichert. An outcome o: out,     *)
(* b (the k of b), plo, phi (factors from bin *)
(* to bin, over 10^8, of a b a little higher and lower than the one given),   *)
(* p, q (the factor of the b given), a, siga, sigb; td (units of t per year), *)
(* dm (bin width in hundredths), noref (no reference magnitude), j (bins from *)
(* the lower edge of the first to the reference magnitude).                   *)
EXTENDS Weichert, Numbers

Q8 == Ten(8)
Num(x) == IsNum(x)

Solved(w, o) ==
    (IF AtOrBelow(w, Big(o.plo), Q8) /\ AtOrAbove(w, Big(o.phi), Q8)
     THEN {} ELSE {"b is not the solution"})
RateOf(w, o) ==
    IF Equals(o.a, RateDen(w, o.j, Big(o.p), Big(o.q)),
              RateNum(w, o.j, o.td, Big(o.p), Big(o.q)), 200)
    THEN {} ELSE {"rate"}
ErrorOfB(w, o) ==
    IF SameSquare(o.sigb,
                  BProd(<<InfoNum(w, Big(o.p), Big(o.q)), Big(o.dm * o.dm), Big(53018981)>>),
                  [m |-> 1, e |-> 0], BMul(InfoDen(w, Big(o.p), Big(o.q)), Ten(11)), 100)
    THEN {} ELSE {"error of b"}
ErrorOfA(w, o) ==
    IF o.noref \/ SameSquare(o.siga, N(w), o.a, <<1>>, 500) THEN {} ELSE {"error of the rate"}

WrongOutcome(w, o) ==
    IF o.out # "ok" THEN {"no result: " \o o.out}
    ELSE IF ~HasSolution(w)
    THEN IF o.b = "nan" /\ o.a.k = "nan" /\ o.siga.k = "nan" /\ o.sigb.k = "nan" THEN {}
         ELSE {"a result without a solution"}
    ELSE IF o.b # "num" THEN {"no b value: " \o o.b}
    ELSE IF ~(Num(o.a) /\ Num(o.siga) /\ Num(o.sigb)) THEN {"not a number"}
    ELSE LET s == Solved(w, o) IN
         IF s # {} THEN s
         ELSE IF o.p < 20000 /\ o.q = 100000000 THEN {}  \* not resolved by 1/10^8
         ELSE RateOf(w, o) \cup ErrorOfB(w, o) \cup ErrorOfA(w, o)
=============================================================================
