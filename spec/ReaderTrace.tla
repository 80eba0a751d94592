----------------------------- MODULE ReaderTrace -----------------------------
(* Recorded runs of the real catalogue reader against Catalogue.              *)
(* A case: header (names found in the first line), rows (raw tokens), lines   *)
(* (line number of every row), now, mode ("stream": entries are observed one  *)
(* by one as they are read; "list": the whole catalogue or the error), events *)
(* (what was observed: "row" with its tokens, "error" with field and line,    *)
(* "malformed", "end", or anything else that happened).                       *)
EXTENDS Catalogue, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES k, l, stuck
tvars == <<cvars, k, l, stuck>>

Ev == Cases[k].events
Has(e) == l <= Len(Ev) /\ Ev[l].e = e
\* in "list" mode nothing is visible of a file with an invalid row but the error
Hidden == Cases[k].mode = "list" /\ \E i \in 1..Len(rows) : ~Valid(rows[i], now)

TraceInit ==
    /\ k \in 1..Len(Cases) /\ l = 1 /\ stuck = {}
    /\ ReaderInit(Cases[k].header, Cases[k].rows, Cases[k].now)

TAccept == AcceptHeader /\ UNCHANGED l
TMalformed == RejectHeader /\ Has("malformed") /\ l' = l + 1
TDeliver ==
    /\ Deliver
    /\ IF Hidden THEN UNCHANGED l
       ELSE Has("row") /\ Ev[l].row = out'[n'] /\ l' = l + 1
TFail ==
    /\ FailRow /\ Has("error")
    /\ Ev[l].field \in err'.fields
    /\ Ev[l].line = Cases[k].lines[err'.row]
    /\ Ev[l].named
    /\ l' = l + 1
TFinish == Finish /\ Has("end") /\ l' = l + 1

Step == stuck = {} /\ (TAccept \/ TMalformed \/ TDeliver \/ TFail \/ TFinish)

(* Which clause the implementation broke when no specification step explains  *)
(* the next observation.                                                      *)
Why ==
    IF pc = "header" THEN {"header accepted although it is not the catalogue header"}
    ELSE IF n = Len(rows) THEN {"something else than the end after the last row"}
    ELSE IF Valid(rows[n + 1], now) THEN
        IF Has("row") THEN
            {"field " \o FieldNames[i] : i \in
                {j \in 1..25 : Ev[l].row[j] # SanitiseField(FieldNames[j], rows[n + 1])}}
        ELSE {"valid row not delivered: " \o (IF l <= Len(Ev) THEN Ev[l].e ELSE "nothing")}
    ELSE IF Has("error") THEN
        (IF Ev[l].field \in BadFields(rows[n + 1], now) THEN {} ELSE {"error names a good field"})
        \cup (IF Ev[l].line = Cases[k].lines[n + 1] THEN {} ELSE {"error names the wrong line"})
        \cup (IF Ev[l].named THEN {} ELSE {"message without field and line"})
    ELSE {"invalid row without validation error: " \o (IF l <= Len(Ev) THEN Ev[l].e ELSE "nothing")}

Stuck == /\ stuck = {} /\ pc # "done"
         /\ ~ENABLED (TAccept \/ TMalformed \/ TDeliver \/ TFail \/ TFinish)
         /\ stuck' = Why
         /\ PrintT(ToString(<<"REJECT", k, stuck'>>))
         /\ UNCHANGED <<cvars, k, l>>

Verdict ==
    /\ stuck = {} /\ pc = "done"
    /\ stuck' = {"-"}
    /\ IF l = Len(Ev) + 1
       THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, {"observations after the end"}>>))
    /\ UNCHANGED <<cvars, k, l>>

TraceNext == (Step /\ UNCHANGED <<k, stuck>>) \/ Stuck \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
