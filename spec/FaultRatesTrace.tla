--------------------------- MODULE FaultRatesTrace ---------------------------
(* Rates computed by the real code against FaultRates, bin by bin. A case:    *)
(* p (min, w, max, b, c0, c1, aseismic, and the numbers slip, smod, dlr,      *)
(* width), valid (slip and aseismic part are), missing (no maximum was given),*)
(* asked (what the scaling relation was asked: area, rake as they should be), *)
(* out, rates (numbers), again, kept.                                         *)
EXTENDS FaultRates, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, j, bad
tvars == <<k, j, bad>>
C == Cases[k]
P == C.p
R == C.rates
Ok == C.out = "ok"
Outcome ==
    IF ~C.valid THEN IF Ok THEN {"accepted"} ELSE {}
    ELSE IF ~Ok THEN {"no rates: " \o C.out}
    ELSE (IF Len(R) = Bins(P.min, P.w, P.max) THEN {} ELSE {"number of bins"})
         \cup (IF \A i \in DOMAIN R : IsNum(R[i]) THEN
                 IF \A i \in DOMAIN R : R[i].m > 0 THEN {} ELSE {"not positive"}
               ELSE {"not a positive number"})
         \cup (IF C.missing THEN
                 IF Len(C.asked) > 0 /\ \A i \in DOMAIN C.asked : C.asked[i].area /\ C.asked[i].rake
                 THEN {} ELSE {"scaling relation"}
               ELSE {})
         \cup (IF C.again THEN {} ELSE {"not the same again"})
         \cup (IF C.kept THEN {} ELSE {"arguments modified"})

Precision == 1000000
TraceInit == k \in 1..Len(Cases) /\ j = 0 /\ bad = {"start"}
Start == bad = {"start"} /\ bad' = Outcome /\ UNCHANGED <<k, j>>
(* the first and the last bin by the balance of the slip *)
Anchored(i) == IF i \in {1, Len(R)}
               THEN LET lost == BSub(Fix(1), Kept(P.b, P.w)) IN
                    IF Balanced(P, i - 1, R[i], lost, Precision)
                    THEN {} ELSE {"slip is not balanced"}
               ELSE {}
(* and every bin by the one before *)
Ratio(i) == IF i = 1 THEN {}
            ELSE IF SameNum(R[i], Fix(1), R[i - 1], Kept(P.b, P.w), Precision)
                 THEN {} ELSE {"not the same factor from bin to bin"}
Bin == /\ bad = {} /\ Ok /\ j < Len(R)
       /\ j' = j + 1 /\ k' = k
       /\ bad' = Anchored(j') \cup Ratio(j')
Verdict ==
    /\ bad \notin {{"-"}, {"start"}}
    /\ IF bad # {} \/ ~Ok THEN TRUE ELSE j >= Len(R)
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, j>>
TraceNext == Start \/ Bin \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
