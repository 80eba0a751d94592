--------------------------- MODULE GardnerKnopoff ---------------------------
(* Gardner-Knopoff declustering as a state machine. Events are considered     *)
(* from the largest to the smallest (equal magnitudes in any order).  An      *)
(* event that is in no cluster yet takes every smaller event which is in no   *)
(* cluster either and lies inside its space and time windows.                 *)
EXTENDS Decluster, Windows

VARIABLES cat,    \* sequence of [m, t]
          dist,   \* dist[i][j]: distance in metres
          opt,    \* name of the windows
          pct,    \* foreshock window in percent of the aftershock window
          todo,   \* events not considered yet
          vcl, flag, nc

gkvars == <<cat, dist, opt, pct, todo, vcl, flag, nc>>

GKInit(c, d, o, p) ==
    /\ cat = c /\ dist = d /\ opt = o /\ pct = p
    /\ todo = DOMAIN c
    /\ vcl = [i \in DOMAIN c |-> 0] /\ flag = [i \in DOMAIN c |-> 0]
    /\ nc = 0

Largest(S) == {i \in S : \A j \in S : cat[j].m <= cat[i].m}

Dependent(e, j) ==
    /\ dist[e][j] <= Space(opt, cat[e].m)
    /\ InTime(opt, cat[e].m, pct, cat[j].t - cat[e].t)

Taken(e) == {j \in todo \ {e} : vcl[j] = 0 /\ Dependent(e, j)}

Skip(e) ==
    /\ e \in Largest(todo)
    /\ vcl[e] # 0 \/ Taken(e) = {}
    /\ todo' = todo \ {e}
    /\ UNCHANGED <<cat, dist, opt, pct, vcl, flag, nc>>

Cluster(e) ==
    /\ e \in Largest(todo)
    /\ vcl[e] = 0 /\ Taken(e) # {}
    /\ nc' = nc + 1
    /\ vcl' = [i \in DOMAIN cat |->
                 IF i = e \/ i \in Taken(e) THEN nc' ELSE vcl[i]]
    /\ flag' = [i \in DOMAIN cat |->
                 IF i \in Taken(e)
                 THEN (IF cat[i].t < cat[e].t THEN -1 ELSE 1) ELSE flag[i]]
    /\ todo' = todo \ {e}
    /\ UNCHANGED <<cat, dist, opt, pct>>

GKNext == \E e \in todo : Skip(e) \/ Cluster(e)

GKDone == todo = {}

\* every event of a cluster lies inside the windows of its mainshock
InsideMainWindows ==
    \A c \in Labels(vcl) : \A i \in Members(vcl, c) :
        flag[i] # 0 => Dependent(MainOf(vcl, flag, c), i)
\* no kept event of smaller magnitude was left which a mainshock could take
Maximal ==
    GKDone => \A e \in DOMAIN cat : flag[e] = 0 =>
        ~\E j \in DOMAIN cat : /\ vcl[j] = 0 /\ cat[j].m < cat[e].m
                               /\ Dependent(e, j)
=============================================================================
