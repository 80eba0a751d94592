------------------------------ MODULE MC_Regions ------------------------------
(* All sequences of creations over a few models, values and weights.          *)
EXTENDS Regions
CONSTANTS MaxOps, MaxItems, Rich
VARIABLES regions, op
vars == <<regions, op>>

Half == One \div 2
Weights == {0, Half, One, -1}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Sets(S) == [of : Seqs(S, MaxItems), weight : Seqs(Weights, MaxItems)]
Msrs == Sets({"Peer", "other"})
Values == Sets({[id |-> "30.0", pos |-> TRUE], [id |-> "-2.0", pos |-> FALSE]})
Fine == Single(Value("7.0"))
Op(how, id, has, msr, smod, dlr) ==
    [how |-> how, id |-> id, has |-> has, msr |-> msr, smod |-> smod, dlr |-> dlr]
Ops == {Op("name", n, {}, Msr0, Fine, Fine) : n \in Names \cup {"nowhere"}}
    \cup {Op("name", n, {"msr"}, m, Fine, Fine) : n \in {"Volcanic"}, m \in Msrs}
    \cup {Op("name", n, {"smod"}, Msr0, v, Fine) : n \in {"Volcanic", "Stable Continental"}, v \in Values}
    \cup {Op("name", n, {"dlr", "smod"}, Msr0, Fine, v) : n \in {"Active Shallow Crust"}, v \in Values}
    \cup {Op("new", "005", {"msr", "smod", "dlr"}, Msr0, v, Single(Value("1.25e-05"))) : v \in Values}
    \cup (IF Rich THEN {Op("new", "006", {"msr", "smod", "dlr"}, m, v, w) :
                           m \in {x \in Msrs : Len(x.of) = Len(x.weight)}, v \in Values, w \in {Fine}}
          ELSE {})
None == Op("none", "", {}, Msr0, Fine, Fine)
Init == regions = <<>> /\ op = None
Next == /\ Len(regions) < MaxOps
        /\ \E o \in Ops : op' = o /\ regions' = After(regions, o)
Spec == Init /\ [][Next]_vars

SumOf(ws) == LET S[i \in 0..Len(ws)] == IF i = 0 THEN 0 ELSE S[i - 1] + ws[i] IN S[Len(ws)]
Weighted(s) == /\ Len(s.of) = Len(s.weight) /\ Len(s.of) > 0 /\ SumOf(s.weight) = One
               /\ \A j \in DOMAIN s.weight : s.weight[j] >= 0
AllValid == \A i \in DOMAIN regions :
    LET r == regions[i] IN
    /\ Weighted(r.msr) /\ Weighted(r.smod) /\ Weighted(r.dlr)
    /\ \A j \in DOMAIN r.msr.of : r.msr.of[j] \in {"Peer", "WC1994"}
    /\ \A j \in DOMAIN r.smod.of : r.smod.of[j].pos
    /\ \A j \in DOMAIN r.dlr.of : r.dlr.of[j].pos
\* regions never change
Isolated == [][ \A i \in DOMAIN regions : i \in DOMAIN regions' /\ regions'[i] = regions[i] ]_vars
\* a refused creation makes nothing, an accepted one the region asked for
Created == [][ IF Accepts(op') THEN /\ Len(regions') = Len(regions) + 1
                                    /\ LET r == regions'[Len(regions')] IN
                                       /\ "smod" \in op'.has => r.smod = op'.smod
                                       /\ "dlr" \in op'.has => r.dlr = op'.dlr
                                       /\ "msr" \in op'.has => r.msr = op'.msr
                                       /\ "smod" \notin op'.has => r.smod = Named(op'.id).smod
                                       /\ "dlr" \notin op'.has => r.dlr = Named(op'.id).dlr
               ELSE regions' = regions ]_vars
\* the named regions are accepted as they are, with identifiers of their own
ASSUME \A n \in Names : Valid(Named(n))
ASSUME \A m, n \in Names : Named(m).id = Named(n).id => m = n
=============================================================================
