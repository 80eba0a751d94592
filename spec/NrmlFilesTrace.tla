---------------------------- MODULE NrmlFilesTrace ----------------------------
(* Recorded histories of the real writer against NrmlFiles. A case: paths,    *)
(* dirs, ops: [op |-> "make", p, out], [op |-> "use", w, sources (before),    *)
(* out, kept] or [op |-> "look", p, tokens (of the file), out, back (the      *)
(* sources the reader delivers)].                                             *)
EXTENDS NrmlFiles, Nrml, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad
tvars == <<fvars, k, l, bad>>
C == Cases[k]
Op == C.ops[l]
Set(q) == {q[i] : i \in DOMAIN q}

TraceInit == /\ k \in 1..Len(Cases) /\ l = 1 /\ bad = {}
             /\ FilesInit(Set(C.paths))

Differ(what, a, b) ==
    IF Len(a) # Len(b) THEN {what \o ": number of sources"}
    ELSE UNION {{what \o ": " \o f : f \in {g \in DOMAIN a[r] : a[r][g] # b[r][g]}} : r \in DOMAIN a}

Follow ==
    /\ bad = {} /\ l <= Len(C.ops) /\ l' = l + 1 /\ k' = k
    /\ IF Op.op = "make"
       THEN /\ Make(Op.p, Set(C.dirs))
            /\ bad' = IF answer' = "ok"
                      THEN IF Op.out = "ok" THEN {} ELSE {"no writer: " \o Op.out}
                      ELSE IF Op.out = "raise:OSError" THEN {}
                           ELSE {"missing directory not refused: " \o Op.out}
       ELSE IF Op.op = "use"
       THEN /\ Use(Op.w, Op.sources)
            /\ bad' = (IF Op.out = "ok" THEN {} ELSE {"not written: " \o Op.out})
                      \cup (IF Op.kept THEN {} ELSE {"sources modified"})
       ELSE /\ UNCHANGED fvars
            /\ LET st == Read(Op.tokens) IN
               bad' = IF disk[Op.p] = NoFile
                      THEN IF Op.tokens = <<>> THEN {} ELSE {"file nobody wrote"}
                      ELSE (IF Conforms(st) THEN Differ("written", disk[Op.p][1], st.srcs)
                            ELSE {"does not conform to the schema"})
                           \cup (IF Op.out # "ok" THEN {"not readable: " \o Op.out}
                                 ELSE Differ("read back", disk[Op.p][1], Op.back))
Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.ops))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<fvars, k, l>>

TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
