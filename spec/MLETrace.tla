------------------------------- MODULE MLETrace -------------------------------
(* Estimates of the real code against MLE. A case: par, out, res (b, sigb, a, *)
(* siga: numbers), single (per distinct year of the table: [y, out, res], the *)
(* result for a table of this period only), kept.                             *)
EXTENDS MLE, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
tvars == <<mvars, k, done>>
C == Cases[k]

TraceInit == k \in 1..Len(Cases) /\ done = FALSE /\ MInit(Cases[k].par)

(* periods whose events all lie in bins below the completeness magnitude      *)
(* can't be estimated; nothing is demanded then                               *)
Judged == \A y \in Years(C.par) : Chosen(C.par, y) = {} \/ Estimable(C.par, y)

Follow == /\ ~done /\ Judged /\ todo # {}
          /\ Period(CHOOSE y \in todo : \A z \in todo : y <= z) /\ UNCHANGED <<k, done>>

NoEstimate(o, r) == o = "ok" /\ \A f \in {"b", "sigb", "a", "siga"} : r[f].k = "nan"
Is(x, v, what) == IF IsNum(x) /\ FixClose(FixNum(x), v, 1000000) THEN {} ELSE {what}

ErrorOfB(r, y) ==
    LET u == Cardinality(Used(par, y))
        v == (u * Sum2(par, y)) - (Sum1(par, y) * Sum1(par, y)) IN
    IF u * par.times < 2 THEN {}
    ELSE IF ~IsNum(r.sigb) \/ ~IsNum(r.b) THEN {"error of b"}
    ELSE IF v = 0 THEN IF BLeq(FixNum(r.sigb), Big(10000)) THEN {} ELSE {"error of b"}
    ELSE IF SameNum([m |-> r.sigb.m, e |-> 2 * r.sigb.e],
                    BProd(<<Big(r.sigb.m), Big(u), Big(u), Big((u * par.times) - 1), Ten(6)>>),
                    [m |-> r.b.m, e |-> 4 * r.b.e],
                    BProd(<<Big(r.b.m), Big(r.b.m), Big(r.b.m), Big(529),
                            Big(par.dm * par.dm), Big(v)>>), 10000)
    THEN {} ELSE {"error of b"}

(* the error of the rate is a factor: ten to the distance between             *)
(* (b + error of b) ref and b mc, for the values given                        *)
Ln10 == Trim(<<2994, 8509, 3025, 2>>)
ErrorOfA(r, y) ==
    IF ~IsNum(r.b) \/ ~IsNum(r.sigb) THEN {}
    ELSE LET e == BDivS(BDist(BMul(BAdd(FixNum(r.b), FixNum(r.sigb)), Big(par.ref)),
                              BMul(FixNum(r.b), Big(Mc(par, y)))), 100) IN
         IF BLeq(Fix(40), e) THEN {}
         ELSE IF IsNum(r.siga) /\ FixClose(FixNum(r.siga), FixExp(FixMul(e, Ln10)), 100000)
         THEN {} ELSE {"error of the rate"}

OfPeriod(s) ==
    IF Chosen(par, s.y) = {}
    THEN IF NoEstimate(s.out, s.res) THEN {} ELSE {"an estimate without events"}
    ELSE IF s.out # "ok" THEN {"no result: " \o s.out}
    ELSE Is(s.res.b, B(par, s.y), "b value") \cup Is(s.res.a, Rate(par, s.y), "rate")
         \cup ErrorOfB(s.res, s.y) \cup ErrorOfA(s.res, s.y)

Have == {i \in 1..Len(C.single) : Chosen(par, C.single[i].y) # {}}
Average(f) ==
    IF \E i \in Have : ~IsNum(C.single[i].res[f]) THEN {}
    ELSE LET sum == FoldLeft(LAMBDA a, i : BAdd(a, BMul(Big(Cardinality(Chosen(par, C.single[i].y))),
                                                        FixNum(C.single[i].res[f]))),
                             <<>>, SetToSeq(Have))
         IN Is(C.res[f], BDivS(sum, acc.n), "average of " \o f)

Wrong ==
    (IF C.kept THEN {} ELSE {"arguments modified"})
    \cup UNION {OfPeriod(C.single[i]) : i \in 1..Len(C.single)}
    \cup (IF acc.n = 0
          THEN IF NoEstimate(C.out, C.res) THEN {} ELSE {"an estimate without events"}
          ELSE IF C.out # "ok" THEN {"no result: " \o C.out}
          ELSE Is(C.res.b, FinalB, "weighted b value") \cup Is(C.res.a, FinalA, "weighted rate")
               \cup Average("sigb") \cup Average("siga"))
Verdict ==
    /\ ~done /\ (todo = {} \/ ~Judged) /\ done' = TRUE /\ UNCHANGED <<mvars, k>>
    /\ LET b == IF Judged THEN Wrong ELSE {} IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
