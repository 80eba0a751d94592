----------------------------- MODULE MC_Workflow -----------------------------
EXTENDS Workflow, TLC
CONSTANTS MaxPre, MaxProc, MaxSrc, Events

VARIABLES log      \* history: what ran, and on what
vars == <<wvars, log>>

Cats == {<<>>} \cup {<<e>> : e \in Events} \cup
        {<<e, f>> : e \in Events, f \in Events}
Fails(np, nr, ns) ==
    {<<"none", 0, 0>>}
    \cup {<<"pre", 0, i>> : i \in 1..np}
    \cup {<<"filter", i, 0>> : i \in 1..ns}
    \cup {<<"proc", i, k>> : i \in 1..ns, k \in 1..nr}

Init ==
    /\ \E np \in 0..MaxPre, nr \in 0..MaxProc, ns \in 0..MaxSrc, a \in BOOLEAN :
        \E ef \in [1..np -> {<<>>, <<1>>, <<2, 1>>}],
           zo \in [1..ns -> SUBSET Events], fa \in Fails(np, nr, ns) :
          WInit(np, nr, ns, a, ef, zo, fa, <<1, 2>>)
    /\ log = <<>>

Logged == log' = Append(log,
    IF phase = "pre" THEN <<"pre", 0, j, <<>> >>
    ELSE <<"proc", s, j, Own(s)>>)
Next == \/ (Pre \/ Proc) /\ Logged
        \/ (Turn \/ Select \/ NextSource) /\ UNCHANGED log
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Before(i, k) ==   \* the order in which jobs must run
    \/ log[i][1] = "pre" /\ log[k][1] = "proc"
    \/ log[i][1] = log[k][1] /\
        (log[i][2] < log[k][2] \/
            (log[i][2] = log[k][2] /\ log[i][3] < log[k][3]))
Ordered == \A i, k \in DOMAIN log : i < k => Before(i, k)
OnlyAsked == ~apply => \A i \in DOMAIN log : log[i][1] = "pre"
\* a run which ends without failure has run everything
Complete == phase = "done" =>
    Len(log) = npre + (IF apply THEN nproc * nsrc ELSE 0)
\* no job runs after the failing one
NothingAfterFailure ==
    fail[1] # "none" => \A i \in DOMAIN log :
        LET l == log[i] IN
        CASE fail[1] = "pre" -> l[1] = "pre" /\ l[3] <= fail[3]
          [] fail[1] = "filter" -> l[1] = "pre" \/ l[2] < fail[2]
          [] OTHER -> \/ l[1] = "pre" \/ l[2] < fail[2]
                      \/ l[2] = fail[2] /\ l[3] <= fail[3]
\* every source sees its own events of the last catalogue
OwnEvents == \A i \in DOMAIN log : log[i][1] = "proc" =>
    /\ \A e \in DOMAIN log[i][4] : log[i][4][e] \in zone[log[i][2]]
    /\ log[i][4] = SelectSeq(cat, LAMBDA e : e \in zone[log[i][2]])
Ends == <>WDone
=============================================================================
