--------------------------- MODULE Gen_ValueObjects ---------------------------
(* All histories of MaxSteps operations on N names, for replay.               *)
EXTENDS ValueObjects, TLC, Json
CONSTANTS N, Fields, Tokens, MaxSteps
VARIABLE hist
vars == <<vovars, hist>>
Default == [f \in Fields |-> <<"d">>]
Init == VOInit(N) /\ hist = <<>>
Step(op, s, t, f, x) ==
    hist' = Append(hist, [op |-> op, s |-> s, t |-> t, f |-> f, x |-> x])
Next ==
    /\ Len(hist) < MaxSteps
    /\ \E s \in 1..N :
         \/ New(s, Default) /\ Step("NEW", s, 0, "", "")
         \/ \E t \in 1..N : s # t /\ Copy(s, t) /\ Step("COPY", s, t, "", "")
         \/ \E t \in 1..N : s # t /\ Alias(s, t) /\ Step("ALIAS", s, t, "", "")
         \/ \E f \in Fields, x \in Tokens : Set(s, f, <<x>>) /\ Step("SET", s, 0, f, x)
         \/ \E f \in Fields, x \in Tokens : Grow(s, f, x) /\ Step("GROW", s, 0, f, x)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxSteps => PrintT("GEN " \o ToJson(hist))
=============================================================================
