------------------------------ MODULE NrmlTrace ------------------------------
(* Reads of source model files, one or several at a time. A case has the      *)
(* documents (token streams), the reads (each of one document) and the        *)
(* observed steps, of read r: a source delivered, the end, or an error. Every *)
(* document is consumed by the automaton of Nrml; a read delivers the sources *)
(* of its document one after the other.                                       *)
EXTENDS Nrml, Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k,      \* the case
          d, i, st,    \* the document consumed, its position, the automaton
          docs,   \* what the documents contain: [ok, srcs, sound]
          at,     \* per read: the number of sources delivered
          over,   \* per read: ended
          l, done
vars == <<k, d, i, st, docs, at, over, l, done>>
C == Cases[k]
S == C.steps[l]

TraceInit == /\ k \in 1..Len(Cases) /\ d = 1 /\ i = 1 /\ st = Start /\ docs = <<>>
             /\ at = [r \in DOMAIN Cases[k].reads |-> 0]
             /\ over = [r \in DOMAIN Cases[k].reads |-> FALSE]
             /\ l = 1 /\ done = FALSE

Consume == /\ d <= Len(C.docs)
           /\ IF i <= Len(C.docs[d])
              THEN /\ st' = Step(st, C.docs[d][i]) /\ i' = i + 1
                   /\ UNCHANGED <<d, docs>>
              ELSE /\ docs' = Append(docs, [ok |-> Conforms(st), srcs |-> st.srcs, sound |-> st.sound])
                   /\ d' = d + 1 /\ i' = 1 /\ st' = Start
           /\ UNCHANGED <<k, at, over, l, done>>

Doc(r) == docs[C.reads[r]]
\* what may be observed of read r now
Fits == LET D == Doc(S.r) n == at[S.r] IN
    /\ ~over[S.r]
    /\ CASE S.o = "source" -> IF n < D.sound THEN S.src = D.srcs[n + 1] ELSE ~D.ok
         [] S.o = "end" -> D.ok /\ n = Len(D.srcs)
         [] OTHER -> ~D.ok
Observe == /\ d > Len(C.docs) /\ l <= Len(C.steps)
           /\ Fits
           /\ l' = l + 1
           /\ at' = IF S.o = "source" THEN [at EXCEPT ![S.r] = @ + 1] ELSE at
           /\ over' = IF S.o = "source" THEN over ELSE [over EXCEPT ![S.r] = TRUE]
           /\ UNCHANGED <<k, d, i, st, docs, done>>

Why == LET D == Doc(S.r) n == at[S.r] IN
    IF S.o = "source" THEN
        IF n >= D.sound THEN {"a source too many"}
        ELSE {"source " \o ToString(n + 1) \o ": " \o f : f \in
                {g \in DOMAIN D.srcs[n + 1] : S.src[g] # D.srcs[n + 1][g]}}
    ELSE IF S.o = "end" THEN
        IF D.ok THEN {"sources left out"} ELSE {"a document which does not conform read to its end"}
    ELSE {"a document which conforms not read: " \o S.o}
Verdict == /\ d > Len(C.docs) /\ ~done
           /\ IF l > Len(C.steps) THEN TRUE ELSE ~Fits
           /\ done' = TRUE /\ UNCHANGED <<k, d, i, st, docs, at, over, l>>
           /\ LET bad == IF l <= Len(C.steps) THEN Why
                         ELSE (IF C.kept THEN {} ELSE {"sources delivered before changed"})
                              \cup (IF C.untouched THEN {} ELSE {"file changed"}) IN
              IF bad = {} THEN PrintT(ToString(<<"ACCEPT", k>>))
              ELSE PrintT(ToString(<<"REJECT", k, bad>>))
TraceNext == Consume \/ (~done /\ Observe) \/ Verdict
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
