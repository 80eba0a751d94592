------------------------------- MODULE Afteran -------------------------------
(* Afteran declustering (Musson 1999) as a state machine: as Gardner-Knopoff  *)
(* the events are considered from the largest down, but inside the space      *)
(* window the cluster grows through a moving time window, first forwards      *)
(* (aftershocks), then backwards (foreshocks), candidates being tried in the  *)
(* same order (decreasing magnitude).                                         *)
EXTENDS Decluster, Windows

VARIABLES cat, dist, opt,
          win,     \* length of the moving window in hundredths of a day
          order,   \* the order in which events are considered
          pos,     \* how many have been considered
          vcl, flag, nc

afvars == <<cat, dist, opt, win, order, pos, vcl, flag, nc>>

AFInit(c, d, o, w, ord) ==
    /\ cat = c /\ dist = d /\ opt = o /\ win = w /\ order = ord
    /\ pos = 0
    /\ vcl = [i \in DOMAIN c |-> 0] /\ flag = [i \in DOMAIN c |-> 0]
    /\ nc = 0

\* candidates for the cluster of e, in order
Candidates(e) ==
    SelectSeq(SubSeq(order, pos + 2, Len(order)),
              LAMBDA j : vcl[j] = 0 /\ dist[e][j] <= Space(opt, cat[e].m))

RECURSIVE After(_, _, _)
After(cs, last, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET d == cat[Head(cs)].t - last IN
         IF d >= 0 /\ d * 100 <= win
         THEN After(Tail(cs), cat[Head(cs)].t, acc \cup {Head(cs)})
         ELSE After(Tail(cs), last, acc)

RECURSIVE Before(_, _, _)
Before(cs, last, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET d == last - cat[Head(cs)].t IN
         IF d >= 0 /\ d * 100 <= win
         THEN Before(Tail(cs), cat[Head(cs)].t, acc \cup {Head(cs)})
         ELSE Before(Tail(cs), last, acc)

Aft(e) == After(Candidates(e), cat[e].t, {})
Fore(e) == Before(SelectSeq(Candidates(e), LAMBDA j : j \notin Aft(e)),
                  cat[e].t, {})

Skip(e) ==
    /\ vcl[e] # 0 \/ Aft(e) \cup Fore(e) = {}
    /\ UNCHANGED <<vcl, flag, nc>>

Cluster(e) ==
    /\ vcl[e] = 0
    /\ LET a == Aft(e)
           f == Fore(e)
       IN  /\ a \cup f # {}
           /\ nc' = nc + 1
           /\ vcl' = [i \in DOMAIN cat |->
                        IF i = e \/ i \in a \/ i \in f THEN nc' ELSE vcl[i]]
           /\ flag' = [i \in DOMAIN cat |-> IF i \in a THEN 1
                        ELSE IF i \in f THEN -1 ELSE flag[i]]

AFNext ==
    /\ pos < Len(order)
    /\ pos' = pos + 1
    /\ Skip(order[pos + 1]) \/ Cluster(order[pos + 1])
    /\ UNCHANGED <<cat, dist, opt, win, order>>

AFDone == pos = Len(order)

\* every event of a cluster is in the space window of the mainshock
InsideSpaceWindow ==
    \A c \in Labels(vcl) : \A i \in Members(vcl, c) :
        LET e == MainOf(vcl, flag, c) IN
            dist[e][i] <= Space(opt, cat[e].m)
\* and within one time window of another event of the cluster
Chained ==
    \A c \in Labels(vcl) : \A i \in Members(vcl, c) :
        \E j \in Members(vcl, c) \ {i} :
            LET d == cat[i].t - cat[j].t IN
                (IF d < 0 THEN -d ELSE d) * 100 <= win
Orders(c) == {o \in [1..Len(c) -> 1..Len(c)] :
                /\ \A i, j \in 1..Len(c) : i # j => o[i] # o[j]
                /\ \A i, j \in 1..Len(c) : i < j => c[o[i]].m >= c[o[j]].m}
=============================================================================
