-------------------------- MODULE MC_SourceEstimates --------------------------
EXTENDS SourceEstimates, FiniteSets, TLC
CONSTANTS NSources, Values, MaxSteps
VARIABLES first, steps, est
vars == <<sevars, first, steps, est>>

Ref == "ref"
Bad == "nan"
Source == [a : {"a0"}, b : {"b0"}, mmin : {"l0"}, mmax : {"h0"},
           siga : {"none"}, sigb : {"none"}, sigm : {"none"}, rest : {"x", "y"}]
Init == /\ first \in [1..NSources -> Source] /\ SEInit(first) /\ steps = 0
        /\ est = {}
RecEst(v, w) == [a |-> v, b |-> w, siga |-> v, sigb |-> w,
                 fin |-> v # Bad /\ w # Bad]
MaxEst(v) == [m |-> v, sigm |-> v, fin |-> v # Bad]
Next == /\ steps < MaxSteps /\ steps' = steps + 1 /\ first' = first
        /\ \/ (\E i \in 1..NSources, e \in BOOLEAN : Turn(i, e)) /\ est' = est
           \/ \E v, w \in Values \cup {Bad} : Recurrence(RecEst(v, w), Ref)
                /\ est' = IF own THEN est \cup {cur} ELSE est
           \/ \E v \in Values \cup {Bad} : MaximumMagnitude(MaxEst(v))
                /\ est' = IF own THEN est \cup {cur} ELSE est
Spec == Init /\ [][Next]_vars

NeverNaN == \A i \in 1..NSources : \A f \in {"a", "b", "mmax"} : src[i][f] # Bad
RestKept == \A i \in 1..NSources : src[i].rest = first[i].rest
\* values come together: a source has both values and the reference or none
Together == \A i \in 1..NSources :
    LET s == src[i] IN
    (s.a = first[i].a) <=> (s.b = first[i].b) /\ ((s.mmin = Ref) <=> (s.a # first[i].a))
        /\ ((s.siga = "none") <=> (s.a = first[i].a))
MaxTogether == \A i \in 1..NSources :
    (src[i].mmax = first[i].mmax) <=> (src[i].sigm = "none")
OnlyVisited == \A i \in 1..NSources : i \notin est => src[i] = first[i]
OneAtATime == [][\A i \in 1..NSources : i # cur => src'[i] = src[i]]_vars
\* recurrence leaves the maximum magnitude and the other way round
Apart == [][\A i \in 1..NSources :
    ~(src'[i].mmax # src[i].mmax /\ (src'[i].a # src[i].a \/ src'[i].b # src[i].b))]_vars
=============================================================================
