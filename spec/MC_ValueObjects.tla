--------------------------- MODULE MC_ValueObjects ---------------------------
EXTENDS ValueObjects
CONSTANTS N, Fields, Tokens, MaxSteps
VARIABLES steps, touched
vars == <<vovars, steps, touched>>

Default == [f \in Fields |-> <<"d">>]
Init == VOInit(N) /\ steps = 0 /\ touched = 0
Slots == 1..N
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \E s \in Slots :
             /\ touched' = s
             /\ \/ New(s, Default)
                \/ \E t \in Slots : Copy(s, t) \/ Alias(s, t)
                \/ \E f \in Fields, x \in Tokens :
                     Set(s, f, <<x>>) \/ Replace(s, f, <<x>>) \/ Grow(s, f, x)
Spec == Init /\ [][Next]_vars

Held == {s \in Slots : Has(s)}
Equivalence == \A s, t, u \in Held :
    /\ Equal(s, s) /\ (Equal(s, t) <=> Equal(t, s))
    /\ ((Equal(s, t) /\ Equal(t, u)) => Equal(s, u))
    /\ (slot[s] = slot[t] => Equal(s, t))
    /\ (Equal(s, t) <=> \A f \in Fields : Value(s)[f] = Value(t)[f])
\* only what is touched, and the other names of the same object, change
Isolated == [][\A s \in Slots :
    (Has(s) /\ s # touched' /\ (slot[touched'] # slot[s]))
    => (slot'[s] = slot[s] /\ heap'[slot'[s]] = heap[slot[s]])]_vars
=============================================================================
