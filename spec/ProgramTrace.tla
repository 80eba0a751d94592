----------------------------- MODULE ProgramTrace -----------------------------
(* Recorded runs of the real program in one directory against Program. A      *)
(* case: world, dirs, disk (the first files; a model as tokens), runs:        *)
(*  [cfg, d (detailed), alg: [f, ev, table, res] (outcomes of the algorithms  *)
(*   for the inputs ev: event numbers, and table), ok, log (the log file is   *)
(*   there), extra (other files), files: path -> [same (bytes as before the   *)
(*   run), k, v, tokens]].                                                    *)
EXTENDS Program, Nrml, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad
tvars == <<gvars, k, l, bad>>
C == Cases[k]
R == C.runs[l]
Set(q) == {q[i] : i \in DOMAIN q}

File(f) == CASE f.k = "model" ->
                  LET st == Read(f.tokens) IN
                  IF Conforms(st) THEN [k |-> "model", v |-> st.srcs] ELSE [k |-> "bad"]
             [] f.k \in {"cat", "table"} -> [k |-> f.k, v |-> f.v]
             [] OTHER -> [k |-> f.k]
TraceInit == /\ k \in 1..Len(Cases) /\ l = 0 /\ bad = {}
             /\ GInit(C.world, Set(C.dirs), [p \in DOMAIN C.disk |-> File(C.disk[p])])

NoRef == <<"none", "none">>
Known3(f, ev, t) == {i \in DOMAIN R.alg : R.alg[i].f = f /\ R.alg[i].ev = ev
                                          /\ (f = "recurrence" => R.alg[i].table = t)}
Res(f, ev, t) == LET h == Known3(f, ev, t) IN
                 IF h = {} THEN NoRef ELSE R.alg[CHOOSE i \in h : TRUE].res

Job == IF todo = <<>> THEN "" ELSE Head(todo)
On == IF pc = "proc" THEN own ELSE Events(working)
Algorithms == {"gardner_knopoff", "afteran", "stepp", "recurrence", "maximum_magnitude"}
Answer == IF pc = "proc" /\ own = <<>> THEN <<>> ELSE Res(Job, On, table)

Run == /\ l > 0 /\ bad = {} /\ pc \notin {"idle", "over"}
       /\ l' = l /\ k' = k
       /\ IF pc \in {"pre", "proc"} /\ Job \in Algorithms
          THEN IF Len(Answer) = 2
               THEN UNCHANGED gvars /\ bad' = {"no reference: " \o Job}
               ELSE /\ bad' = {}
                    /\ CASE Job \in {"gardner_knopoff", "afteran"} -> Decluster(Job, Answer)
                         [] Job = "stepp" -> Completeness(Answer)
                         [] Job = "recurrence" -> Recurrence(Answer, R.ref)
                         [] OTHER -> Maximum(Answer)
          ELSE Plain /\ bad' = {}

(* the observation o of the file the specification calls x *)
Sources(what, a, b) ==
    IF Len(a) # Len(b) THEN {what \o ": number of sources"}
    ELSE UNION {{what \o ": " \o f : f \in {g \in DOMAIN a[i] : a[i][g] # b[i][g]}} : i \in DOMAIN a}
Compare(p, x, o) ==
    IF p \notin {cfg.prep, cfg.tab, cfg.res}
    THEN IF o.same THEN {} ELSE {"changed: " \o p}
    ELSE IF x.k = "model" \/ x.k = "odd"
    THEN IF o.k # "model" THEN {"missing: " \o p} ELSE Sources(p, x.v, Read(o.tokens).srcs)
    ELSE IF x.k \in {"cat", "table"}
    THEN IF o.k # x.k THEN {"missing: " \o p} ELSE IF o.v = x.v THEN {} ELSE {"content: " \o p}
    ELSE IF o.same THEN {} ELSE {"not to be written: " \o p}
Detailed == \E i \in 1..l : C.runs[i].d
Look == UNION {Compare(p, disk[p], R.files[p]) : p \in DOMAIN disk}
        \cup (IF R.ok = (answer = "ok") THEN {}
              ELSE {IF R.ok THEN "failure not reported" ELSE "failed"})
        \cup (IF R.extra = <<>> THEN {} ELSE {"other files"})
        \cup (IF R.log = Detailed THEN {} ELSE {"log file"})
(* the end of a run, and the next one *)
Turn1 == /\ bad = {} /\ pc \in {"idle", "over"} /\ k' = k
         /\ LET b == IF l = 0 THEN {} ELSE Look IN
            /\ bad' = b
            /\ IF b = {} /\ l < Len(C.runs)
               THEN l' = l + 1 /\ Begin(C.runs[l + 1].cfg)
               ELSE l' = l + 1 /\ UNCHANGED gvars
Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.runs))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<gvars, k, l>>

TraceNext == (l <= Len(C.runs) /\ (Run \/ Turn1)) \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
