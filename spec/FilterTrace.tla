----------------------------- MODULE FilterTrace -----------------------------
(* Recorded selections of the real filters against Geometry. A case: null     *)
(* (no geometry), polys (one polygon per source), points (epicentre of every  *)
(* event), ids (per event, the number of the first one which agrees with it   *)
(* in everything), got (per source, in turn: [o |-> "ok", idx, src] with the  *)
(* ids of the delivered rows, 0 for a row which is no row of the catalogue,   *)
(* and src whether the source came with them; or [o |-> error]),              *)
(* ended, kept (catalogue and sources not modified), own (the selection does  *)
(* not share storage with the catalogue).                                     *)
EXTENDS Geometry, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES k, s, over
tvars == <<k, s, over>>
C == Cases[k]

All == [i \in 1..Len(C.points) |-> i]
Chosen(src) == IF C.null THEN All
               ELSE LET r == Ring(C.polys[src]) IN
                    SelectSeq(All, LAMBDA i : InsideRing(C.points[i], r))
Want(src) == LET w == Chosen(src) IN [i \in DOMAIN w |-> C.ids[w[i]]]
Refused(src) == ~C.null /\ ~Valid(C.polys[src])

TraceInit == k \in 1..Len(Cases) /\ s = 1 /\ over = FALSE

Delivered ==
    /\ s <= Len(C.polys) /\ s <= Len(C.got) /\ ~Refused(s)
    /\ C.got[s].o = "ok" /\ C.got[s].src /\ C.got[s].idx = Want(s)
    /\ s' = s + 1 /\ UNCHANGED <<k, over>>

Accept(ok, why) ==
    IF ok THEN PrintT(ToString(<<"ACCEPT", k>>))
    ELSE PrintT(ToString(<<"REJECT", k, why>>))

Elems(q) == {q[i] : i \in DOMAIN q}
Verdict ==
    /\ ~ENABLED Delivered
    /\ over' = TRUE /\ UNCHANGED <<k, s>>
    /\ LET bad ==
          (IF s > Len(C.polys)
           THEN IF Len(C.got) = Len(C.polys) /\ C.ended = "end" THEN {}
                ELSE {"no end after the last source"}
           ELSE IF s > Len(C.got) THEN {"sources missing"}
           ELSE IF Refused(s)
           THEN IF C.got[s].o = "raise:RuntimeError" /\ Len(C.got) = s THEN {}
                ELSE {"invalid polygon not refused: " \o C.got[s].o}
           ELSE IF C.got[s].o # "ok" THEN {"no selection: " \o C.got[s].o}
           ELSE (IF C.got[s].src THEN {} ELSE {"another source"})
                \cup (IF 0 \in Elems(C.got[s].idx)
                      THEN {"rows which are not in the catalogue"} ELSE {})
                \cup (IF Elems(Want(s)) \subseteq Elems(C.got[s].idx) THEN {}
                      ELSE {"events inside left out"})
                \cup (IF (Elems(C.got[s].idx) \ {0}) \subseteq Elems(Want(s))
                      THEN {} ELSE {"events outside selected"})
                \cup (IF C.got[s].idx = Want(s) THEN {}
                      ELSE {"order or repetition of the events"}))
          \cup (IF C.kept THEN {} ELSE {"catalogue or sources modified"})
          \cup (IF C.own THEN {} ELSE {"selection shares the catalogue"})
       IN Accept(bad = {}, bad)

TraceNext == ~over /\ (Delivered \/ Verdict)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
