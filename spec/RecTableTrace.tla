----------------------------- MODULE RecTableTrace -----------------------------
(* Recurrence tables of the real code. A case: par (ev, dm, times: how often each event happened), out, rows [c     *)
(* (centre in thousandths), n, cum, an, cn (numbers)], kept.                  *)
EXTENDS Numbers, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, n     \* events counted so far
tvars == <<k, i, n>>
C == Cases[k]
P == C.par
LOCAL MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LOCAL MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
LOCAL Y == {P.ev[j].y : j \in 1..Len(P.ev)}
Lowest == MinOf({(P.ev[j].m \div 10) * 10 : j \in 1..Len(P.ev)})
Bin(e) == ((e.m - Lowest) \div P.dm) + 1
TopBin == MaxOf({Bin(P.ev[j]) : j \in 1..Len(P.ev)})
Span2 == MaxOf(Y) - MinOf(Y) + 2

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ n = <<>>
Follow == /\ i <= Len(P.ev) /\ i' = i + 1 /\ k' = k
          /\ LET s == IF n = <<>> THEN [j \in 1..TopBin |-> 0] ELSE n IN
             n' = [s EXCEPT ![Bin(P.ev[i])] = @ + P.times]
At(j) == IF j <= TopBin THEN n[j] ELSE 0
Above(j) == IF j > TopBin THEN 0 ELSE FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(n, j, TopBin))
Annual(x, c) == IsNum(x) /\ Equals(x, Big(Span2), Big(2 * c), 100000)
Wrong ==
    IF C.out # "ok" THEN {"no table: " \o C.out}
    ELSE (IF C.kept THEN {} ELSE {"arguments modified"})
     \cup (IF Len(C.rows) \in TopBin..(TopBin + 3) THEN {} ELSE {"number of rows"})
     \cup UNION {
        (IF C.rows[j].c = (10 * (Lowest + ((j - 1) * P.dm))) + (5 * P.dm) THEN {}
         ELSE {"magnitude of a bin"})
        \cup (IF C.rows[j].n = At(j) THEN {} ELSE {"count"})
        \cup (IF C.rows[j].cum = Above(j) THEN {} ELSE {"cumulative count"})
        \cup (IF Annual(C.rows[j].an, At(j)) THEN {} ELSE {"annual count"})
        \cup (IF Annual(C.rows[j].cn, Above(j)) THEN {} ELSE {"annual cumulative count"})
        : j \in 1..Len(C.rows)}
Verdict ==
    /\ i = Len(P.ev) + 1 /\ i' = i + 1 /\ UNCHANGED <<k, n>>
    /\ IF Wrong = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, Wrong>>))
TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
