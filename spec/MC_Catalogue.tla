---------------------------- MODULE MC_Catalogue ----------------------------
(* Exhaustive exploration of the reader over all one-field mutations of a     *)
(* valid row (every field takes one representative of every class of token),  *)
(* in files of up to MaxRows rows.                                            *)
EXTENDS Catalogue
CONSTANT MaxRows

I(v) == [k |-> "int", v |-> v, s |-> "i"]
R(v) == [k |-> "num", v |-> v, s |-> "r"]
Txt == [k |-> "str", v |-> 0, s |-> "x"]

Base == <<I(1), Txt, I(7), I(2000), I(2), I(29), I(23), I(59), R(59999),
          R(20), R(-180000), R(90000), R(2000), R(1000), R(360000), R(1),
          R(0), R(5500), R(100), R(1), Blank, R(1), R(100), Blank, R(0)>>

Alternatives(f) ==
    IF f \in TextFields THEN {Txt, Blank}
    ELSE IF f \in IntFields THEN
        {Txt, Blank, R(1500), I(-1), I(0), I(1), I(12), I(13), I(24), I(29),
         I(30), I(31), I(32), I(60), I(-10000), I(-10001), I(2012), I(2013)}
    ELSE {Txt, Blank, R(-180001), R(-180000), R(-90001), R(-90000), R(-1),
          R(0), R(999), R(1001), R(59999), R(60000), R(90001), R(180000),
          R(180001), R(360000), R(360001)}

Mutants == {[Base EXCEPT ![Pos(f)] = t] :
            f \in {FieldNames[i] : i \in 1..25}, t \in {Txt, Blank}}
    \cup UNION {{[Base EXCEPT ![Pos(f)] = t] : t \in Alternatives(f)} :
            f \in {FieldNames[i] : i \in 1..25}}

Headers == {FieldNames, Tail(FieldNames), <<>>,
            [FieldNames EXCEPT ![1] = "year"],
            Append(FieldNames, "extra")}

Files == UNION {[1..k -> Mutants] : k \in 0..1}
    \cup (IF MaxRows >= 2 THEN {<<a, b>> : a \in Mutants, b \in Mutants} ELSE {})

Init == \E h \in Headers :
          \E r \in (IF h = FieldNames THEN Files ELSE {<<>>, <<Base>>}) :
             ReaderInit(h, r, 2012)
Next == ReaderNext
Spec == Init /\ [][Next]_cvars /\ WF_cvars(Next)
Terminates == <>(pc = "done")
=============================================================================
