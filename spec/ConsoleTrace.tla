----------------------------- MODULE ConsoleTrace -----------------------------
(* Command lines given to the real code, read token by token by Console. A    *)
(* case: kind "line" (line, res, and of the arguments f and detailed), "log"  *)
(* (level, events, shown, file: whether a log file was written, filed) or     *)
(* "main" (line, whole run of the program: res "refused" for an error before  *)
(* any run, logfile, made: whether any other file was).                       *)
EXTENDS Console, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, i, s, bad
tvars == <<k, i, s, bad>>
C == Cases[k]
Texts(es) == [n \in DOMAIN es |-> es[n].text]

LineBad ==
    (IF C.res = Result(s) THEN {} ELSE {Result(s) \o " expected, not " \o C.res})
    \cup (IF Result(s) # "arguments" \/ C.res # "arguments" THEN {}
          ELSE (IF C.f = s.input.f THEN {} ELSE {"another input file"})
               \cup (IF C.detailed = s.detailed THEN {} ELSE {"detailed"}))
MainBad ==
    IF Result(s) = "arguments"
    THEN (IF C.res = "arguments" THEN {} ELSE {"no run: " \o C.res})
         \cup (IF C.logfile = LogFile(LevelOf(s)) THEN {} ELSE {"log file"})
    ELSE (IF C.res = Result(s) THEN {} ELSE {Result(s) \o " expected, not " \o C.res})
         \cup (IF C.logfile \/ C.made THEN {"files made"} ELSE {})
LogBad ==
    LET e == Texts(Shown(C.level, C.events)) IN
    (IF C.shown = e THEN {} ELSE {"messages shown"})
    \cup (IF C.file = LogFile(C.level) THEN {} ELSE {"log file"})
    \cup (IF C.file /\ C.filed # e THEN {"messages of the log file"} ELSE {})

TraceInit == k \in 1..Len(Cases) /\ i = 1 /\ s = Fresh /\ bad = {}
Token == /\ bad = {} /\ C.kind # "log" /\ i <= Len(C.line)
         /\ s' = Read(s, C.line[i]) /\ i' = i + 1 /\ UNCHANGED <<k, bad>>
Verdict ==
    /\ bad # {"-"}
    /\ IF C.kind = "log" THEN TRUE ELSE i > Len(C.line)
    /\ LET b == CASE C.kind = "line" -> LineBad [] C.kind = "main" -> MainBad
                  [] C.kind = "log" -> LogBad IN
       IF b = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
       ELSE PrintT(ToString(<<"REJECT", k, b>>))
    /\ bad' = {"-"} /\ UNCHANGED <<k, i, s>>
TraceNext == Token \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
