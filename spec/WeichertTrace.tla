----------------------------- MODULE WeichertTrace -----------------------------
(* Estimates of the real code from given periods and counts. A case: w (t,    *)
(* n), o (outcome), kept, odd (started far off); half, next: for a reference magnitude half a bin    *)
(* and a bin higher (rates); twin: [kind, c, o], the outcome for c^2 times    *)
(* the counts or c times the periods (kind "none": no such).                  *)
EXTENDS WeichertOutcome, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, done
C == Cases[k]

TraceInit == k \in 1..Len(Cases) /\ done = FALSE

Between ==
    IF ~HasSolution(C.w) \/ ~C.between THEN {}
    ELSE IF ~(Num(C.half) /\ Num(C.next)) THEN {"rate at another reference"}
    ELSE IF SameNum([m |-> C.half.m, e |-> 2 * C.half.e], Big(C.half.m),
                    [m |-> C.next.m, e |-> C.next.e + C.o.a.e], Big(C.o.a.m), 500)
    THEN {} ELSE {"rate at another reference"}
Twin ==
    IF C.twin.kind = "none" \/ ~HasSolution(C.w) THEN {}
    ELSE LET t == C.twin.o
             c == Big(C.twin.c)
             counts == C.twin.kind = "counts" IN
      IF t.out # "ok" \/ t.b # "num" \/ ~(Num(t.a) /\ Num(t.siga) /\ Num(t.sigb))
      THEN {"no result at another order of magnitude"}
      ELSE Solved(C.w, t)
        \cup (IF SameNum(t.sigb, IF counts THEN c ELSE <<1>>, C.o.sigb, <<1>>, 500)
              THEN {} ELSE {"error of b and number of events"})
        \cup (IF SameNum(t.a, IF counts THEN <<1>> ELSE c, C.o.a,
                         IF counts THEN BMul(c, c) ELSE <<1>>, 200)
              THEN {} ELSE {"rate and order of magnitude"})
        \cup (IF SameNum(t.siga, IF counts THEN <<1>> ELSE c, C.o.siga,
                         IF counts THEN c ELSE <<1>>, 200)
              THEN {} ELSE {"error of the rate and number of events"})
(* from a starting value far off there need not be a result *)
GaveUp == /\ C.odd /\ C.o.out = "ok" /\ C.o.b = "nan" /\ C.o.a.k = "nan"
          /\ C.o.siga.k = "nan" /\ C.o.sigb.k = "nan"
Wrong == LET b == IF GaveUp THEN {} ELSE WrongOutcome(C.w, C.o) IN
    IF b # {} THEN b
    ELSE Between \cup Twin \cup (IF C.kept THEN {} ELSE {"arguments modified"})
Verdict ==
    /\ ~done /\ done' = TRUE /\ k' = k
    /\ LET b == Wrong IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
TraceSpec == TraceInit /\ [][Verdict]_<<k, done>>
=============================================================================
