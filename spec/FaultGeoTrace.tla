----------------------------- MODULE FaultGeoTrace -----------------------------
(* Faults made by the real code against SimpleFault. A case: f (the fault as  *)
(* in SimpleFault), out, and, when it was made: len (angle of the length),    *)
(* parts (of every two consecutive points by themselves: [a, h]), rev (angle  *)
(* of the reversed trace), again, alike (the same values of the same fault    *)
(* again, and of others with the same trace), width, area, length (numbers),  *)
(* extent (of depth, a number), bracket (the width is between those of the    *)
(* dip rounded up and down), kept.                                            *)
EXTENDS SimpleFault, Numbers, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, sum, bad
tvars == <<k, i, sum, bad>>
C == Cases[k]
T == C.f.trace
Plain(p) == [lon |-> p.lon.v, lat |-> p.lat.v]
Ok == C.out = "ok"

Refusal == IF Accepted(C.f) THEN IF Ok THEN {} ELSE {"refused: " \o C.out}
           ELSE IF Ok THEN {"accepted"}
           ELSE IF C.out = "raise:ValueError" THEN {} ELSE {"not a ValueError: " \o C.out}
Exact == \A p \in {T[n] : n \in DOMAIN T} : p.exact

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ sum = 0 /\ bad = {"start"}
Start == /\ bad = {"start"} /\ bad' = Refusal /\ UNCHANGED <<k, i, sum>>
Part == /\ bad = {} /\ Ok /\ i < Len(T)
        /\ sum' = (IF C.parts[i].a \in 0..180000100 THEN sum + C.parts[i].a ELSE sum)
        /\ i' = i + 1 /\ k' = k
        /\ bad' = IF C.parts[i].a \notin 0..180000100 THEN {"not a length of two points"}
                  ELSE IF Exact THEN PairBad(Plain(T[i]), Plain(T[i + 1]), C.parts[i]) ELSE {}
Whole ==
    IF C.len < 0 \/ C.rev < 0 THEN {"negative length"} ELSE
    (IF Abs(C.len - sum) <= Len(T) + 1 THEN {} ELSE {"length is not the sum of the parts"})
    \cup (IF Abs(C.len - C.rev) <= Len(T) + 1 THEN {} ELSE {"length of the reversed trace"})
    \cup (IF C.again /\ C.alike THEN {} ELSE {"not the same value again"})
    \cup (IF C.kept THEN {} ELSE {"arguments modified"})
    \cup (IF C.bracket THEN {} ELSE {"width between those of whole dips"})
    \cup (IF ~C.finite THEN {}
          ELSE (IF IsNum(C.width) /\ IsNum(C.area) /\ IsNum(C.length) THEN
                  (IF SameNum(C.area, Big(1), [m |-> C.length.m, e |-> C.length.e + C.width.e],
                              Big(C.width.m), 10000000)
                   THEN {} ELSE {"area"})
                  \cup (IF C.f.dip.v % 1000 = 0 /\ C.f.dip.v >= 1000
                        THEN IF SameNum(C.width, Big(Sin8(C.f.dip.v)), C.extent, Big(100000000), 1000000)
                             THEN {} ELSE {"width"}
                        ELSE {})
                ELSE {"no number"}))
Verdict ==
    /\ bad \notin {{"-"}, {"start"}}
    /\ IF bad # {} \/ ~Ok THEN TRUE ELSE i >= Len(T)
    /\ LET b == IF bad = {} /\ Ok THEN Whole ELSE bad IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i, sum>>
TraceNext == Start \/ Part \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
