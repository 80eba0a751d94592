------------------------------- MODULE MC_Nrml -------------------------------
(* Documents as they are streamed, with every edit of a written document:     *)
(* a token left out, doubled, changed or exchanged with its neighbour, the    *)
(* end missing. The reader consumes the stream token by token.                *)
EXTENDS Nrml, TLC, FiniteSets
CONSTANTS MaxSources, Edits
VARIABLES doc, st, i, edit, n
vars == <<doc, st, i, edit, n>>

Src(k) == [nrml |-> "n1", sm |-> "m1", id |-> IF k = 1 THEN "s1" ELSE "s2",
           name |-> IF k = 1 THEN "one" ELSE NoneT, region |-> "Volcanic",
           srs |-> IF k = 1 THEN "x" ELSE NoneT,
           pos |-> <<<<"1", "2">>, <<"3", "4">>, <<"5", "6">>>>,
           a |-> "7", b |-> "8", mmin |-> "9", mmax |-> "10", tgr |-> IF k = 1 THEN "ML" ELSE NoneT,
           strike |-> "11", dip |-> "12", rake |-> "13", mtype |-> NoneT,
           mags |-> <<"14", "15">>, depths |-> <<"16", "17">>, hypo |-> IF k = 1 THEN "18" ELSE "19"]
Srcs(k) == [j \in 1..k |-> Src(j)]
V == 45 * M
Full(k) == ModelTokens(Srcs(k), V)

(* edits of a stream *)
Drop(d, p) == SubSeq(d, 1, p - 1) \o SubSeq(d, p + 1, Len(d))
Matching(d, p) ==     \* the end of the element opened at p
    LET depth(q) == Cardinality({x \in p..q : d[x].k = "open"}) - Cardinality({x \in p..q : d[x].k = "close"}) IN
    CHOOSE q \in p..Len(d) : depth(q) = 0 /\ \A z \in p..(q - 1) : depth(z) # 0
Cut(d, p, q) == SubSeq(d, 1, p - 1) \o SubSeq(d, q + 1, Len(d))
Twice(d, p, q) == SubSeq(d, 1, q) \o SubSeq(d, p, Len(d))
Edited(d, e, p) ==
    CASE e = "none" -> d
      [] e = "without" -> IF d[p].k = "open" THEN Cut(d, p, Matching(d, p)) ELSE d
      [] e = "twice" -> IF d[p].k = "open" THEN Twice(d, p, Matching(d, p)) ELSE d
      [] e = "number" -> IF d[p].k = "close" THEN [d EXCEPT ![p].nums = [x \in DOMAIN @ |-> [@[x] EXCEPT !.v = -200 * M]]] ELSE d
      [] e = "word" -> IF d[p].k = "close" THEN [d EXCEPT ![p].bad = TRUE, ![p].blank = FALSE] ELSE d
      [] e = "noid" -> IF d[p].k = "open" THEN [d EXCEPT ![p].id = NoneT] ELSE d
      [] e = "type" -> IF d[p].k = "open" THEN [d EXCEPT ![p].type = "Mb"] ELSE d
      [] e = "broken" -> SubSeq(d, 1, p - 1) \o <<[k |-> "broken"]>>
      [] e = "swapped" -> IF d[p].k = "open" /\ Matching(d, p) < Len(d) /\ d[Matching(d, p) + 1].k = "open"
                          THEN LET q == Matching(d, p) r == Matching(d, q + 1) IN
                               SubSeq(d, 1, p - 1) \o SubSeq(d, q + 1, r) \o SubSeq(d, p, q) \o SubSeq(d, r + 1, Len(d))
                          ELSE d

(* what an edit may do and leave the document valid *)
Optional(t) == t \in {"g:name", "n:config"}
Repeatable(t) == t \in {"g:name", "n:areaSource"}
StillValid(d, e, p) ==
    CASE e = "none" -> TRUE
      [] e = "without" -> d[p].k = "open" => (Optional(d[p].t) \/ d[p].t = "n:sourceModel"
                                             \/ (d[p].t = "n:areaSource" /\ n > 1))
      [] e = "twice" -> d[p].k = "open" => Repeatable(d[p].t)
      [] e = "number" -> d[p].k = "close" => (d[p].nums = <<>> \/ d[p].t \in
                            {"g:posList", "n:magnitude", "n:aValueCumulative", "n:minMagnitude", "n:maxMagnitude"})
      [] e = "word" -> d[p].k = "close" => d[p].t \in {"g:name", "n:tectonicRegion"}
      [] e = "noid" -> d[p].k = "open" => d[p].id = NoneT
      [] e = "type" -> d[p].k = "open" => d[p].t \in {"n:minMagnitude", "n:maxMagnitude"}
      [] e = "broken" -> FALSE
      [] e = "swapped" -> Edited(d, e, p) = d \/ (d[p].t = "n:areaSource")

Init == /\ n \in 1..MaxSources
        /\ \E e \in Edits : \E p \in 1..Len(Full(n)) :
             /\ e = "none" => p = 1
             /\ edit = <<e, p>> /\ doc = Edited(Full(n), e, p)
        /\ st = Start /\ i = 1
Next == i <= Len(doc) /\ st' = Step(st, doc[i]) /\ i' = i + 1 /\ UNCHANGED <<doc, edit, n>>
Spec == Init /\ [][Next]_vars

Over == i > Len(doc)
\* a written document conforms and reads back as the sources written
RoundTrip == (Over /\ edit[1] = "none") => Conforms(st) /\ st.srcs = Srcs(n)
\* an edited document conforms exactly when the edit is allowed
Decided == Over => (Conforms(st) <=> StillValid(Full(n), edit[1], edit[2]))
\* sources are delivered in order, each after its end, and never after a fault
Sound == st.sound <= Len(st.srcs)
InOrder == /\ Len(st.srcs) = st.closed
           /\ st.ok => st.sound = Len(st.srcs)
\* nothing about a source is known to the next one
Apart == (Over /\ Conforms(st)) =>
    \A x \in DOMAIN st.srcs : st.srcs[x].id \in {"s1", "s2"} /\
        (edit[1] = "swapped" \/ st.srcs[x].hypo = (IF st.srcs[x].id = "s1" THEN "18" ELSE "19"))
NeverOkAgain == [][~st.ok => ~st'.ok]_vars
SoundStays == [][~st'.ok => st'.sound = st.sound]_vars
=============================================================================
