------------------------------ MODULE ValueTrace ------------------------------
(* Recorded histories of objects against ValueObjects. A case: names (how     *)
(* many), default ([field -> sequence of tokens]), ops: per operation         *)
(*  [op, s, t, f, x, out, vals (per name the value, an empty record for       *)
(*   none), eq, ne (per pair of names "T", "F", "-" or what it raised)].      *)
EXTENDS ValueObjects, TLC, Json, IOUtils, FiniteSets

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad
tvars == <<vovars, k, l, bad>>
C == Cases[k]
Op == C.ops[l]

TraceInit == k \in 1..Len(Cases) /\ l = 1 /\ bad = {} /\ VOInit(Cases[k].names)

Same(h, sl) ==   \* what has to be seen
    UNION {IF sl[s] = 0 THEN {}
           ELSE LET v == h[sl[s]]
                    o == Op.vals[s] IN
                IF DOMAIN o # DOMAIN v THEN {"fields"}
                ELSE UNION {IF o[f] = v[f] THEN {}
                            ELSE {IF s = Op.s THEN "value of the object" ELSE "value of another object"}
                            : f \in DOMAIN v}
           : s \in 1..C.names}
Compared(h, sl) ==
    UNION {LET s == p[1]  t == p[2] IN
           IF sl[s] = 0 \/ sl[t] = 0 THEN {}
           ELSE LET e == h[sl[s]] = h[sl[t]] IN
                (IF Op.eq[s][t] = (IF e THEN "T" ELSE "F") THEN {} ELSE {"equality"})
                \cup (IF Op.ne[s][t] = (IF e THEN "F" ELSE "T") THEN {} ELSE {"inequality"})
           : p \in (1..C.names) \X (1..C.names)}

Step ==
    /\ bad = {} /\ l <= Len(C.ops) /\ l' = l + 1 /\ k' = k
    /\ \/ Op.op = "NEW" /\ New(Op.s, C.default)
       \/ Op.op = "COPY" /\ Copy(Op.s, Op.t)
       \/ Op.op = "ALIAS" /\ Alias(Op.s, Op.t)
       \/ Op.op = "SET" /\ Set(Op.s, Op.f, <<Op.x>>)
       \/ Op.op = "REPLACE" /\ Replace(Op.s, Op.f, <<Op.x>>)
       \/ Op.op = "GROW" /\ Grow(Op.s, Op.f, Op.x)
    /\ bad' = IF Op.out # "ok" THEN {"operation failed: " \o Op.out}
              ELSE Same(heap', slot') \cup Compared(heap', slot')
Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.ops))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<vovars, k, l>>
TraceNext == Step \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
