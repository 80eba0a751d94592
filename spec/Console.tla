-------------------------------- MODULE Console --------------------------------
(* The command line, read token by token, and what is logged. Tokens:         *)
(*   [t |-> "i"]            the input option, its value is the next token     *)
(*   [t |-> "i=", f, there] the input option with its value                   *)
(*   [t |-> "d"], "v", "h"  detailed, version, help                           *)
(*   [t |-> "word", f, there] a word: a value, or nothing that is known       *)
(*   [t |-> "other"]        no option of the program                          *)
(* there: a file of that name exists.                                         *)
EXTENDS Integers, Sequences

NoFile == [f |-> "", there |-> FALSE]
Fresh == [input |-> NoFile, named |-> FALSE, detailed |-> FALSE, waiting |-> FALSE,
          extra |-> FALSE, end |-> ""]
File(tok) == [f |-> tok.f, there |-> tok.there]

Read(s, tok) ==
    IF s.end # "" THEN s
    ELSE IF s.waiting
    THEN IF tok.t = "word" THEN [s EXCEPT !.input = File(tok), !.named = TRUE, !.waiting = FALSE]
         ELSE [s EXCEPT !.end = "refused"]
    ELSE CASE tok.t = "i"     -> [s EXCEPT !.waiting = TRUE]
           [] tok.t = "i="    -> [s EXCEPT !.input = File(tok), !.named = TRUE]
           [] tok.t = "d"     -> [s EXCEPT !.detailed = TRUE]
           [] tok.t \in {"v", "h"} -> [s EXCEPT !.end = tok.t]
           [] tok.t \in {"word", "other"} -> [s EXCEPT !.extra = TRUE]

(* what comes of it: the arguments, or nothing with the usage printed, or the *)
(* program ends (refused: with the usage and an error)                        *)
Result(s) ==
    IF s.end = "v" THEN "version"
    ELSE IF s.end = "h" THEN "help"
    ELSE IF s.end = "refused" \/ s.waiting \/ s.extra THEN "refused"
    ELSE IF s.named /\ s.input.there THEN "arguments" ELSE "usage"
ReadAll(toks) == LET S[n \in 0..Len(toks)] == IF n = 0 THEN Fresh ELSE Read(S[n - 1], toks[n])
                 IN S[Len(toks)]

(* levels of logging: 10 debug, 20 info, 30 warning, 40 error *)
LevelOf(s) == IF s.detailed THEN 10 ELSE 20
Shown(level, events) == SelectSeq(events, LAMBDA e : e.level >= level)
LogFile(level) == level < 20
=============================================================================
