----------------------------- MODULE RegionsTrace -----------------------------
(* Histories of region creations by the real code, step by step against       *)
(* Regions. A case: ops, and obs: after each of them its outcome, whether the *)
(* arguments given were kept, the first values of every region so far and     *)
(* which of them are equal and unequal.                                       *)
EXTENDS Regions, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, regions, bad
tvars == <<k, i, regions, bad>>
C == Cases[k]
Has(o) == {o.given[j] : j \in DOMAIN o.given}
Op(o) == [how |-> o.how, id |-> o.id, has |-> Has(o), msr |-> o.msr, smod |-> o.smod,
          dlr |-> o.dlr]

Same(rs, a, b) == rs[a].id = rs[b].id /\ rs[a].msr = rs[b].msr /\ rs[a].smod = rs[b].smod
                  /\ rs[a].dlr = rs[b].dlr
YesNo(x) == IF x THEN "yes" ELSE "no"
StepBad(o, ob, rs) ==
    (IF ob.out = Outcome(o) THEN {}
     ELSE IF ob.out = "ok" THEN {"accepted"}
     ELSE IF Accepts(o) THEN {"refused: " \o ob.out} ELSE {"not a ValueError: " \o ob.out})
    \cup (IF ob.kept THEN {} ELSE {"arguments modified"})
    \cup (IF Len(ob.firsts) # Len(rs) THEN {"regions"}
          ELSE (IF \A a \in DOMAIN rs : /\ ob.firsts[a].smod = rs[a].smod.of[1].id
                                        /\ ob.firsts[a].dlr = rs[a].dlr.of[1].id
                THEN {} ELSE {"first values"})
          \cup (IF \A a, b \in DOMAIN rs : /\ ob.eq[a][b] = YesNo(Same(rs, a, b))
                                           /\ ob.ne[a][b] = YesNo(~Same(rs, a, b))
                THEN {} ELSE {"equality of regions"}))

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ regions = <<>> /\ bad = {}
Step == /\ bad = {} /\ i <= Len(C.ops)
        /\ regions' = After(regions, Op(C.ops[i]))
        /\ bad' = StepBad(Op(C.ops[i]), C.obs[i], regions')
        /\ i' = i + 1 /\ k' = k
Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ i > Len(C.ops))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i, regions>>
TraceNext == Step \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
