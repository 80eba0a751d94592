---------------------------- MODULE Gen_Preprocess ----------------------------
(* All behaviours of Preprocess: jobs in any sequence, any answers of the     *)
(* algorithms, for replay with stand-ins which give these answers.            *)
EXTENDS Preprocess, TLC, Json
CONSTANTS N, MaxJobs
VARIABLE hist
vars == <<pvars, hist>>
Cat == [i \in 1..N |-> [y |-> i, m |-> N - i]]
Tables == {<<[y |-> 2, m |-> 2]>>, <<[y |-> 3, m |-> 1], [y |-> 1, m |-> 3]>>}
Init == PreInit(Cat) /\ hist = <<>>
Job(j, f, t) == hist' = Append(hist, [job |-> j, flags |-> f, table |-> t])
Next == /\ Len(hist) < MaxJobs
        /\ \/ \E f \in [1..Len(working) -> {-1, 0, 1}] :
                /\ \E i \in DOMAIN f : f[i] = 0
                /\ Decluster(f) /\ Job("D", f, <<>>)
           \/ \E t \in Tables : Completeness(t) /\ Job("ST", <<>>, t)
           \/ Select /\ Job("SEL", <<>>, <<>>)
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxJobs => PrintT("GEN " \o ToJson(hist))
=============================================================================
