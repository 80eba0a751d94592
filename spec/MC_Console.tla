------------------------------ MODULE MC_Console ------------------------------
(* All command lines of some tokens, then logging at the level chosen.        *)
EXTENDS Console, FiniteSets
CONSTANTS MaxTokens, MaxEvents
VARIABLES line, s, log, written
vars == <<line, s, log, written>>

W(f, x) == [t |-> "word", f |-> f, there |-> x]
E(f, x) == [t |-> "i=", f |-> f, there |-> x]
T(x) == [t |-> x, f |-> "", there |-> FALSE]
Tokens == {T("i"), T("d"), T("v"), T("h"), T("other"), W("a", TRUE), W("b", FALSE),
           E("c", TRUE), E("b", FALSE)}
Init == line = <<>> /\ s = Fresh /\ log = <<>> /\ written = <<>>
Type == /\ Len(line) < MaxTokens /\ log = <<>>
        /\ \E tok \in Tokens : line' = Append(line, tok) /\ s' = Read(s, tok)
        /\ UNCHANGED <<log, written>>
\* with the arguments given, the program logs
Log == /\ Result(s) = "arguments" /\ Len(log) < MaxEvents
       /\ \E l \in {10, 20, 30} :
            LET e == [level |-> l, text |-> Len(log)] IN
            /\ log' = Append(log, e)
            /\ written' = IF LogFile(LevelOf(s)) /\ l >= LevelOf(s) THEN Append(written, e) ELSE written
       /\ UNCHANGED <<line, s>>
Next == Type \/ Log
Spec == Init /\ [][Next]_vars

Agrees == s = ReadAll(line)
Has(x) == \E n \in DOMAIN line : line[n].t = x
\* the arguments are given for an existing file named by an option only
OnlyNamed == Result(s) = "arguments" =>
    /\ \E n \in DOMAIN line :
         /\ line[n].t = "i=" \/ (n > 1 /\ line[n].t = "word" /\ line[n - 1].t = "i")
         /\ line[n].there /\ File(line[n]) = s.input
    /\ ~Has("v") /\ ~Has("h") /\ ~Has("other")
    /\ s.detailed = Has("d")
NoLine == line = <<>> => Result(s) = "usage"
\* options in any order: a detailed option anywhere else means the same
Anywhere == \A n \in 0..Len(line) :
    LET l == SubSeq(line, 1, n) \o <<T("d")>> \o SubSeq(line, n + 1, Len(line))
        o == ReadAll(l) IN
    (~ReadAll(SubSeq(line, 1, n)).waiting /\ Result(s) = "arguments")
        => Result(o) = "arguments" /\ o.input = s.input /\ o.detailed
\* the last file named counts
LastCounts == (Len(line) > 0 /\ line[Len(line)].t = "i=" /\ Result(s) = "arguments")
                 => s.input = File(line[Len(line)])
LogOnlyDetailed == written # <<>> => Has("d")
LogAll == LogFile(LevelOf(s)) => written = Shown(LevelOf(s), log)
Quiet == ~s.detailed => \A n \in DOMAIN Shown(LevelOf(s), log) : Shown(LevelOf(s), log)[n].level >= 20
\* nothing said later takes an end back
Ended == [][ s.end # "" => s' = s ]_vars
=============================================================================
