--------------------------------- MODULE Nrml ---------------------------------
(* Source model documents as streams of tokens, the schema as a set of        *)
(* content models walked through while the stream is consumed, and the area   *)
(* sources collected on the way. A token is                                   *)
(*   [k |-> "open", t, id, idok, srs, type, extra]  the start of element t    *)
(*     with the values of the attributes ("~none" when missing; idok: the id  *)
(*     is a name; extra: there are attributes of other names)                 *)
(*   [k |-> "close", t, s, blank, bad, nums]        its end, with its own     *)
(*     text s, and the numbers in the text: nums[i] = [s, v], s the number as *)
(*     text, v in 10^-6 (clipped); bad: other words than numbers in the text; *)
(*   [k |-> "broken"]                               not well formed here.     *)
EXTENDS Integers, Sequences, SequencesExt

NoneT == "~none"

Regions == {"Active Shallow Crust", "Stable Shallow Crust",
            "Subduction Interface", "Subduction IntraSlab", "Volcanic"}

(* the content of every element: a sequence of places [of, min, max] *)
LOCAL P(of, min, max) == [of |-> of, min |-> min, max |-> max]
LOCAL One(t) == P({t}, 1, 1)
Many == 1000000
LOCAL Feature == <<P({"g:description"}, 0, 1), P({"g:name"}, 0, Many), P({"g:boundedBy"}, 0, 1)>>
LOCAL Geometry == <<P({"g:description"}, 0, 1), P({"g:name"}, 0, Many)>>
LOCAL Rates == <<One("n:ruptureRateModel"), One("n:ruptureDepthDistribution"), One("n:hypocentralDepth")>>
Leaves == {"g:description", "g:name", "n:tectonicRegion", "g:posList", "g:pos",
           "n:aValueCumulative", "n:bValue", "n:minMagnitude", "n:maxMagnitude",
           "n:strike", "n:dip", "n:rake", "n:magnitude", "n:depth", "n:hypocentralDepth",
           "n:upperSeismogenicDepth", "n:lowerSeismogenicDepth"}
Content(t) ==
    CASE t = "n:nrml" -> Feature \o <<P({"n:sourceModel"}, 0, 1)>>
      [] t = "n:sourceModel" ->
            Feature \o <<P({"n:config"}, 0, 1),
                         P({"n:areaSource", "n:pointSource", "n:simpleFaultSource"}, 1, Many)>>
      [] t = "n:config" -> <<>>
      [] t = "n:areaSource" -> Feature \o <<One("n:tectonicRegion"), One("n:areaBoundary")>> \o Rates
      [] t = "n:pointSource" -> Feature \o <<One("n:tectonicRegion"), One("n:location")>> \o Rates
      [] t = "n:simpleFaultSource" ->
            Feature \o <<One("n:tectonicRegion"), One("n:rake"),
                         One("n:truncatedGutenbergRichter"), One("n:simpleFaultGeometry")>>
      [] t = "n:simpleFaultGeometry" ->
            Feature \o <<One("n:faultTrace"), One("n:dip"), One("n:upperSeismogenicDepth"),
                         One("n:lowerSeismogenicDepth")>>
      [] t = "n:faultTrace" -> <<One("g:LineString")>>
      [] t = "g:LineString" -> Geometry \o <<One("g:posList")>>
      [] t = "n:location" -> <<One("g:Point")>>
      [] t = "g:Point" -> Geometry \o <<One("g:pos")>>
      [] t = "n:areaBoundary" -> <<One("g:Polygon")>>
      [] t = "g:Polygon" -> Geometry \o <<One("g:exterior"), P({"g:interior"}, 0, Many)>>
      [] t \in {"g:exterior", "g:interior"} -> <<One("g:LinearRing")>>
      [] t = "g:LinearRing" -> Geometry \o <<One("g:posList")>>
      [] t = "n:ruptureRateModel" ->
            <<One("n:truncatedGutenbergRichter"), One("n:strike"), One("n:dip"), One("n:rake")>>
      [] t = "n:truncatedGutenbergRichter" ->
            <<One("n:aValueCumulative"), One("n:bValue"), One("n:minMagnitude"), One("n:maxMagnitude")>>
      [] t = "n:ruptureDepthDistribution" -> <<One("n:magnitude"), One("n:depth")>>
      [] OTHER -> <<>>
Known == Leaves \cup {"n:nrml", "n:sourceModel", "n:config", "n:areaSource", "n:pointSource",
                      "n:simpleFaultSource", "n:simpleFaultGeometry", "n:faultTrace",
                      "g:LineString", "n:location", "g:Point", "n:areaBoundary", "g:Polygon",
                      "g:exterior", "g:interior", "g:LinearRing", "n:ruptureRateModel",
                      "n:truncatedGutenbergRichter", "n:ruptureDepthDistribution"}

NeedsId == {"n:nrml", "n:sourceModel", "n:areaSource", "n:pointSource", "n:simpleFaultSource",
            "n:simpleFaultGeometry"}
MayId == NeedsId \cup {"g:Polygon", "g:LinearRing", "g:Point", "g:LineString"}
MaySrs == {"g:Polygon", "g:LinearRing", "g:Point", "g:LineString"}
AttrsOk(x) ==
    /\ ~x.extra
    /\ IF x.id = NoneT THEN x.t \notin NeedsId ELSE x.t \in MayId /\ x.idok
    /\ x.srs # NoneT => x.t \in MaySrs
    /\ x.type # NoneT =>
         IF x.t \in {"n:truncatedGutenbergRichter", "n:magnitude"} THEN x.type \in {"ML", "Mw"}
         ELSE x.t \in {"n:minMagnitude", "n:maxMagnitude"}

M == 1000000
LOCAL Single(c) == ~c.bad /\ Len(c.nums) = 1
LOCAL Within(c, lo, hi) == Single(c) /\ c.nums[1].v >= lo /\ c.nums[1].v <= hi
LOCAL AtLeast0(c) == \A i \in DOMAIN c.nums : c.nums[i].v >= 0
TextOk(c) ==
    CASE c.t \in {"g:description", "g:name"} -> TRUE
      [] c.t = "n:tectonicRegion" -> c.s \in Regions
      [] c.t \in {"g:posList", "g:pos", "n:magnitude"} -> ~c.bad
      [] c.t = "n:depth" -> ~c.bad /\ AtLeast0(c)
      [] c.t \in {"n:aValueCumulative", "n:minMagnitude", "n:maxMagnitude"} -> Single(c)
      [] c.t \in {"n:bValue", "n:hypocentralDepth", "n:upperSeismogenicDepth",
                  "n:lowerSeismogenicDepth"} -> Single(c) /\ AtLeast0(c)
      [] c.t = "n:strike" -> Within(c, 0, 360 * M)
      [] c.t = "n:dip" -> Within(c, 0, 90 * M)
      [] c.t = "n:rake" -> Within(c, -180 * M, 180 * M)
      [] OTHER -> c.blank

(* --- the reader: a stack of open elements, each [t, at, n]: n children in    *)
(* the place at of its content; the source being collected; the sources       *)
Empty == [nrml |-> NoneT, sm |-> NoneT, id |-> NoneT, name |-> NoneT, region |-> NoneT,
          srs |-> NoneT, pos |-> <<>>, a |-> NoneT, b |-> NoneT, mmin |-> NoneT,
          mmax |-> NoneT, tgr |-> NoneT, strike |-> NoneT, dip |-> NoneT, rake |-> NoneT,
          mtype |-> NoneT, mags |-> <<>>, depths |-> <<>>, hypo |-> NoneT]
Start == [ok |-> TRUE, started |-> FALSE, stack |-> <<>>, cur |-> Empty, in |-> FALSE, named |-> FALSE,
          nrml |-> NoneT, sm |-> NoneT, srcs |-> <<>>, sound |-> 0, closed |-> 0]

LOCAL Top(st) == st.stack[Len(st.stack)]
(* the place of a child after place at with n children already, 0: none *)
Place(c, at, n, t) ==
    LET fits(p) == /\ t \in c[p].of
                   /\ IF p = at THEN n < c[p].max ELSE TRUE
                   /\ \A q \in at..(p - 1) : (IF q = at THEN n ELSE 0) >= c[q].min
        ps == {p \in at..Len(c) : fits(p)} IN
    IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p <= q
Complete(c, at, n) == \A q \in at..Len(c) : (IF q = at THEN n ELSE 0) >= c[q].min

(* the boundary of an area is its exterior ring *)
LOCAL Above(st, n) == IF Len(st.stack) > n THEN st.stack[Len(st.stack) - n].t ELSE NoneT
LOCAL Attr(st, x) ==
    CASE x.t = "n:nrml" -> [st EXCEPT !.nrml = x.id]
      [] x.t = "n:sourceModel" -> [st EXCEPT !.sm = x.id]
      [] x.t = "n:areaSource" ->
            [st EXCEPT !.in = TRUE, !.named = FALSE,
                       !.cur = [Empty EXCEPT !.nrml = st.nrml, !.sm = st.sm, !.id = x.id]]
      [] x.t = "g:LinearRing" /\ st.in /\ Above(st, 1) = "g:exterior" -> [st EXCEPT !.cur.srs = x.srs]
      [] x.t = "n:truncatedGutenbergRichter" /\ st.in -> [st EXCEPT !.cur.tgr = x.type]
      [] x.t = "n:magnitude" /\ st.in -> [st EXCEPT !.cur.mtype = x.type]
      [] OTHER -> st
Open(st, x) ==
    LET root == st.stack = <<>>
        c == IF root THEN <<>> ELSE Content(Top(st).t)
        p == IF root THEN 1 ELSE Place(c, Top(st).at, Top(st).n, x.t)
        okElem == IF root THEN x.t = "n:nrml" /\ ~st.started ELSE p # 0
        ok == st.ok /\ okElem /\ x.t \in Known /\ AttrsOk(x)
        moved == IF root \/ p = 0 THEN st.stack
                 ELSE [st.stack EXCEPT ![Len(st.stack)] =
                          [t |-> Top(st).t, at |-> p,
                           n |-> IF p = Top(st).at THEN Top(st).n + 1 ELSE 1]]
    IN Attr([st EXCEPT !.ok = ok, !.started = TRUE,
                       !.stack = Append(moved, [t |-> x.t, at |-> 1, n |-> 0])], x)

LOCAL Num(c) == IF Len(c.nums) > 0 THEN c.nums[1].s ELSE NoneT
LOCAL Texts(c) == [i \in DOMAIN c.nums |-> c.nums[i].s]
LOCAL Take(st, c) ==
    IF ~st.in THEN st
    ELSE CASE c.t = "g:name" /\ Above(st, 1) = "n:areaSource" /\ ~st.named ->
                [st EXCEPT !.named = TRUE, !.cur.name = IF c.s = "" THEN NoneT ELSE c.s]
           [] c.t = "n:tectonicRegion" -> [st EXCEPT !.cur.region = c.s]
           [] c.t = "g:posList" /\ Above(st, 2) = "g:exterior" ->
                [st EXCEPT !.cur.pos = [i \in 1..(Len(c.nums) \div 2) |->
                                           <<c.nums[(2 * i) - 1].s, c.nums[2 * i].s>>]]
           [] c.t = "n:aValueCumulative" -> [st EXCEPT !.cur.a = Num(c)]
           [] c.t = "n:bValue" -> [st EXCEPT !.cur.b = Num(c)]
           [] c.t = "n:minMagnitude" -> [st EXCEPT !.cur.mmin = Num(c)]
           [] c.t = "n:maxMagnitude" -> [st EXCEPT !.cur.mmax = Num(c)]
           [] c.t = "n:strike" -> [st EXCEPT !.cur.strike = Num(c)]
           [] c.t = "n:dip" -> [st EXCEPT !.cur.dip = Num(c)]
           [] c.t = "n:rake" -> [st EXCEPT !.cur.rake = Num(c)]
           [] c.t = "n:magnitude" -> [st EXCEPT !.cur.mags = Texts(c)]
           [] c.t = "n:depth" -> [st EXCEPT !.cur.depths = Texts(c)]
           [] c.t = "n:hypocentralDepth" -> [st EXCEPT !.cur.hypo = Num(c)]
           [] OTHER -> st
CloseE(st, c) ==
    LET ok == /\ st.ok
              /\ Complete(Content(Top(st).t), Top(st).at, Top(st).n)
              /\ TextOk(c)
        took == Take(st, c)
        left == [took EXCEPT !.ok = ok, !.stack = SubSeq(took.stack, 1, Len(took.stack) - 1)] IN
    IF c.t # "n:areaSource" THEN left
    ELSE [left EXCEPT !.srcs = Append(left.srcs, left.cur), !.in = FALSE,
                      !.closed = left.closed + 1,
                      !.sound = IF ok THEN left.sound + 1 ELSE left.sound]
Step(st, x) == CASE x.k = "open" -> Open(st, x)
                 [] x.k = "close" -> CloseE(st, x)
                 [] OTHER -> [st EXCEPT !.ok = FALSE]
Read(tokens) == FoldLeft(Step, Start, tokens)
(* the document conforms: everything was in its place, and it is complete *)
Conforms(st) == st.ok /\ st.started /\ st.stack = <<>>

(* --- the writer: the tokens of a sequence of sources ----------------------- *)
O(t) == [k |-> "open", t |-> t, id |-> NoneT, idok |-> TRUE, srs |-> NoneT, type |-> NoneT, extra |-> FALSE]
C0(t) == [k |-> "close", t |-> t, s |-> "", blank |-> TRUE, bad |-> FALSE, nums |-> <<>>]
LOCAL Words(t, w, v) == <<O(t), [C0(t) EXCEPT !.s = "~numbers", !.blank = FALSE,
                                  !.nums = [i \in DOMAIN w |-> [s |-> w[i], v |-> v]]]>>
LOCAL Txt(t, s) == <<O(t), [C0(t) EXCEPT !.s = (IF s = NoneT THEN "" ELSE s), !.blank = FALSE, !.bad = TRUE]>>
LOCAL El(t, inner) == <<O(t)>> \o inner \o <<C0(t)>>
Flat(ps) == FoldLeft(LAMBDA a, p : a \o p, <<>>, ps)
\* v: a value in all the ranges, for the numbers
SourceTokens(s, v) ==
    <<[O("n:areaSource") EXCEPT !.id = s.id]>>
    \o Txt("g:name", s.name) \o Txt("n:tectonicRegion", s.region)
    \o El("n:areaBoundary", El("g:Polygon", El("g:exterior",
          <<[O("g:LinearRing") EXCEPT !.srs = s.srs]>>
          \o Words("g:posList", Flat(s.pos), v) \o <<C0("g:LinearRing")>>)))
    \o El("n:ruptureRateModel",
          <<[O("n:truncatedGutenbergRichter") EXCEPT !.type = s.tgr]>>
          \o Words("n:aValueCumulative", <<s.a>>, v) \o Words("n:bValue", <<s.b>>, v)
          \o Words("n:minMagnitude", <<s.mmin>>, v) \o Words("n:maxMagnitude", <<s.mmax>>, v)
          \o <<C0("n:truncatedGutenbergRichter")>>
          \o Words("n:strike", <<s.strike>>, v) \o Words("n:dip", <<s.dip>>, v)
          \o Words("n:rake", <<s.rake>>, v))
    \o El("n:ruptureDepthDistribution",
          <<[O("n:magnitude") EXCEPT !.type = s.mtype],
            Words("n:magnitude", s.mags, v)[2]>> \o Words("n:depth", s.depths, v))
    \o Words("n:hypocentralDepth", <<s.hypo>>, v) \o <<C0("n:areaSource")>>
ModelTokens(ss, v) ==
    <<[O("n:nrml") EXCEPT !.id = ss[1].nrml], [O("n:sourceModel") EXCEPT !.id = ss[1].sm]>>
    \o El("n:config", <<>>) \o Flat([i \in DOMAIN ss |-> SourceTokens(ss[i], v)])
    \o <<C0("n:sourceModel"), C0("n:nrml")>>
=============================================================================
