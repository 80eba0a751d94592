---------------------------- MODULE EstimateTrace ----------------------------
(* Recorded estimation jobs against SourceEstimates. A case: src (sources as  *)
(* read), ref, recpar, maxpar (configured parameters in the order of the      *)
(* algorithms' signatures, as text), log: per job                             *)
(*  [job |-> "REC"/"MAX", cur, years, mags, sigs, table (what the source's    *)
(*   events are, as text), calls (of the algorithm: [alg, years, mags, sigs,  *)
(*   table, params, est]), out, after (all sources)]                          *)
EXTENDS SourceEstimates, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad, turned
tvars == <<sevars, k, l, bad, turned>>
C == Cases[k]
Op == C.log[l]

TraceInit == /\ k \in 1..Len(Cases) /\ l = 1 /\ bad = {} /\ turned = FALSE
             /\ SEInit(Cases[k].src)

TurnTo == /\ bad = {} /\ l <= Len(C.log) /\ ~turned
          /\ Turn(Op.cur, Len(Op.years) > 0) /\ turned' = TRUE
          /\ UNCHANGED <<k, l, bad>>

Fields == {"a", "b", "mmin", "mmax", "siga", "sigb", "sigm", "rest"}
Diff(want) ==
    IF Len(Op.after) # Len(want) THEN {"number of sources"}
    ELSE UNION {{IF i = cur THEN f ELSE "another source: " \o f :
                   f \in {g \in Fields : want[i][g] # Op.after[i][g]}} : i \in 1..Len(want)}

(* what the algorithm is given *)
Given(c) ==
    (IF c.alg = Op.job THEN {} ELSE {"another algorithm"})
    \cup (IF c.years = Op.years THEN {} ELSE {"years given to the algorithm"})
    \cup (IF c.mags = Op.mags THEN {} ELSE {"magnitudes given to the algorithm"})
    \cup (IF Op.job = "REC" THEN
            IF c.table = Op.table THEN {} ELSE {"table given to the algorithm"}
          ELSE IF c.sigs = Op.sigs THEN {} ELSE {"uncertainties given to the algorithm"})
    \cup (IF c.params = (IF Op.job = "REC" THEN C.recpar ELSE C.maxpar) THEN {}
          ELSE {"parameters given to the algorithm"})

Job ==
    /\ bad = {} /\ l <= Len(C.log) /\ turned /\ turned' = FALSE /\ l' = l + 1 /\ k' = k
    /\ IF Op.out # "ok" THEN UNCHANGED sevars /\ bad' = {"job failed: " \o Op.out}
       ELSE IF ~own THEN UNCHANGED sevars /\ bad' = Diff(src)
       ELSE IF Len(Op.calls) # 1 THEN UNCHANGED sevars /\ bad' = {"calls of the algorithm"}
       ELSE LET c == Op.calls[1] IN
            /\ IF Op.job = "REC" THEN Recurrence(c.est, C.ref) ELSE MaximumMagnitude(c.est)
            /\ bad' = Given(c) \cup Diff(src')

Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.log))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<sevars, k, l, turned>>

TraceNext == TurnTo \/ Job \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
