------------------------------ MODULE PrepTrace ------------------------------
(* Recorded sequences of preprocessing jobs against Preprocess. A case:       *)
(* want (per entry: the row of the matrix, as text), cat (ranks), params      *)
(* (configured parameters of every algorithm, as text), log: per job          *)
(*  [job |-> "matrix"/"defaults"/"GK"/"AF"/"ST"/"SEL", out,                   *)
(*   calls (of the algorithm: [alg, rows, params, res (flags), vcl] or        *)
(*   [alg, years, mags, params, res (rows of the table), table (ranks)]),     *)
(*   matrix, working (rows as text), flags, table (rows as text), sel, vcl]   *)
EXTENDS Preprocess, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad,
          tab,        \* rows of the table, as text
          vcl         \* cluster numbers of the last declustering, <<>> before
tvars == <<pvars, k, l, bad, tab, vcl>>
C == Cases[k]
Op == C.log[l]

TraceInit == /\ k \in 1..Len(Cases) /\ l = 1 /\ bad = {}
             /\ PreInit(C.cat) /\ tab = C.deftable /\ vcl = <<>>

RowsOf(w) == [i \in 1..Len(w) |-> C.want[w[i]].row]
YearsOf(w) == [i \in 1..Len(w) |-> C.want[w[i]].year]
MagsOf(w) == [i \in 1..Len(w) |-> C.want[w[i]].mag]

(* the one algorithm the job has to call, with its own parameters *)
Calls(n) == IF Len(Op.calls) = n THEN {} ELSE {"calls of the algorithm"}

State(f, w, t) ==
    (IF Op.matrix = [i \in 1..Len(C.want) |-> C.want[i].row] THEN {} ELSE {"catalogue matrix"})
    \cup (IF Op.working = RowsOf(w) THEN {} ELSE {"working catalogue"})
    \cup (IF Op.job = "matrix" \/ Op.flags = f THEN {} ELSE {"flags"})
    \cup (IF Op.job = "matrix" \/ Op.table = t THEN {} ELSE {"completeness table"})

Clusters(v) == IF Op.vcl = v THEN {} ELSE {"cluster numbers"}

Same == UNCHANGED <<pvars, tab, vcl>>
Params(c) == IF c.params = C.params[Op.job] THEN {} ELSE {"parameters of the algorithm"}

Decl ==
    IF Len(Op.calls) # 1 THEN Same /\ bad' = {"calls of the algorithm"}
    ELSE LET c == Op.calls[1] IN
      IF c.alg # Op.job THEN Same /\ bad' = {"another algorithm"}
      ELSE IF c.rows # RowsOf(working)
      THEN Same /\ bad' = {"catalogue given to the algorithm"}
      ELSE /\ Decluster(c.res) /\ UNCHANGED tab /\ vcl' = c.vcl
           /\ bad' = Params(c) \cup State(flags', working', tab) \cup Clusters(c.vcl)

Step1 ==
    IF Len(Op.calls) # 1 THEN Same /\ bad' = {"calls of the algorithm"}
    ELSE LET c == Op.calls[1] IN
      IF c.alg # Op.job THEN Same /\ bad' = {"another algorithm"}
      ELSE /\ tab' = c.res /\ Completeness(c.table) /\ UNCHANGED vcl
           /\ bad' = Params(c)
                \cup (IF c.years = YearsOf(working) THEN {} ELSE {"years given to the algorithm"})
                \cup (IF c.mags = MagsOf(working) THEN {} ELSE {"magnitudes given to the algorithm"})
                \cup State(flags, working, tab') \cup Clusters(vcl)

Sel == /\ Select /\ UNCHANGED <<tab, vcl>>
       /\ bad' = Calls(0) \cup State(flags, working, tab) \cup Clusters(vcl)
            \cup (IF Op.sel = sel'[1] THEN {} ELSE {"selected events"})

Follow ==
    /\ bad = {} /\ l <= Len(C.log) /\ l' = l + 1 /\ k' = k
    /\ IF Op.out # "ok" THEN Same /\ bad' = {"job failed: " \o Op.out}
       ELSE IF Op.job \in {"matrix", "defaults"}
       THEN Same /\ bad' = Calls(0) \cup State(flags, working, tab)
       ELSE IF Op.job \in {"GK", "AF"} THEN Decl
       ELSE IF Op.job = "SEL" THEN Sel
       ELSE Step1

Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.log))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<pvars, tab, vcl, k, l>>

TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
