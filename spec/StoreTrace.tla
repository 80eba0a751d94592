----------------------------- MODULE StoreTrace -----------------------------
(* Recorded histories of the real writer and reader against CatalogueStore.   *)
(* A case: paths, dirs, ops: [op |-> "write", p, entries (tokens before),     *)
(* out, kept (entries not modified)], [op |-> "read", p, out, rows] or        *)
(* [op |-> "raw", p, header (names), n (number of data records)].             *)
EXTENDS CatalogueStore, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, l, bad
tvars == <<svars, k, l, bad>>
C == Cases[k]
Op == C.ops[l]
Set(q) == {q[i] : i \in DOMAIN q}
FieldNames == <<"eventID", "Agency", "Identifier", "year", "month", "day",
  "hour", "minute", "second", "timeError", "longitude", "latitude",
  "SemiMajor90", "SemiMinor90", "ErrorStrike", "depth", "depthError", "Mw",
  "sigmaMw", "Ms", "sigmaMs", "mb", "sigmamb", "ML", "sigmaML">>

TraceInit == /\ k \in 1..Len(Cases) /\ l = 1 /\ bad = {}
             /\ StoreInit(Set(C.paths))

Differ(a, b) ==
    IF Len(a) # Len(b) THEN {"number of entries"}
    ELSE UNION {{"field " \o FieldNames[i] : i \in {j \in 1..25 : a[r][j] # b[r][j]}}
                : r \in DOMAIN a}

Follow ==
    /\ bad = {} /\ l <= Len(C.ops) /\ l' = l + 1 /\ k' = k
    /\ IF Op.op = "write"
       THEN /\ Write(Op.p, Op.entries, Set(C.dirs))
            /\ bad' =
                 (IF seen'[1] = "ok"
                  THEN IF Op.out = "ok" THEN {} ELSE {"not written: " \o Op.out}
                  ELSE IF Op.out = "raise:OSError" THEN {}
                       ELSE {"missing directory not refused: " \o Op.out})
                 \cup (IF Op.kept THEN {} ELSE {"entries modified"})
       ELSE IF Op.op = "read"
       THEN /\ Read(Op.p)
            /\ bad' = IF Op.out # "ok" THEN {"not readable: " \o Op.out}
                      ELSE Differ(seen'[2], Op.rows)
       ELSE /\ UNCHANGED svars
            /\ bad' = (IF Op.header = FieldNames THEN {} ELSE {"header"})
                 \cup (IF Op.n = Len(disk[Op.p][1]) THEN {} ELSE {"number of rows"})

Verdict ==
    /\ bad # {"-"} /\ (bad # {} \/ l > Len(C.ops))
    /\ IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, bad>>))
    /\ bad' = {"-"} /\ UNCHANGED <<svars, k, l>>

TraceNext == Follow \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
