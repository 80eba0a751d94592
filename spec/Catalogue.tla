------------------------------ MODULE Catalogue ------------------------------
(* The earthquake catalogue: what a row of the csv file means, which rows are *)
(* valid, how optional values are sanitised, and the reader that turns a file *)
(* into entries one at a time.                                                *)
(*                                                                            *)
(* A field of a row is a token [k, v, s]: k = "int" (text of an integer),     *)
(* "num" (text of a real), "str" (any other text) or "blank"; v is the value, *)
(* in thousandths for "num" (rounded away from zero, so that comparing it     *)
(* with whole numbers is exact) and s the canonical text of the value.        *)
EXTENDS Integers, Sequences, FiniteSets

FieldNames == <<"eventID", "Agency", "Identifier", "year", "month", "day",
                "hour", "minute", "second", "timeError", "longitude",
                "latitude", "SemiMajor90", "SemiMinor90", "ErrorStrike",
                "depth", "depthError", "Mw", "sigmaMw", "Ms", "sigmaMs",
                "mb", "sigmamb", "ML", "sigmaML">>

Pos(name) == CHOOSE i \in 1..Len(FieldNames) : FieldNames[i] = name

IntFields == {"eventID", "Identifier", "year", "month", "day", "hour",
              "minute"}
TextFields == {"Agency"}
RealFields == {FieldNames[i] : i \in 1..25} \ (IntFields \cup TextFields)
Compulsory == IntFields \cup {"longitude", "latitude", "depth", "Mw"}

Blank == [k |-> "blank", v |-> 0, s |-> ""]
Zero == [k |-> "num", v |-> 0, s |-> "0.0"]

(* Type conversion of a raw token: an integer text is also a real one.        *)
IsNumber(f, t) == IF f \in IntFields THEN t.k = "int" ELSE t.k = "num"

PI1 == Pos("year")
PI2 == Pos("month")

InRange(f, t, row, now) ==
    CASE f \in {"eventID", "Identifier", "depth"} -> t.v > 0
      [] f = "year" -> -10000 <= t.v /\ t.v <= now
      [] f = "month" -> 1 <= t.v /\ t.v <= 12
      [] f = "day" -> 1 <= t.v /\ t.v <= (IF row[PI2].k = "int" /\ row[PI2].v = 2
                                          THEN 29 ELSE 31)
      [] f = "hour" -> 0 <= t.v /\ t.v <= 23
      [] f = "minute" -> 0 <= t.v /\ t.v <= 59
      [] f = "longitude" -> -180000 <= t.v /\ t.v <= 180000
      [] f = "latitude" -> -90000 <= t.v /\ t.v <= 90000
      [] OTHER -> TRUE

(* The compulsory fields of a row that cannot be used.                        *)
BadFields(row, now) ==
    {f \in Compulsory : LET t == row[Pos(f)] IN
        ~(IsNumber(f, t) /\ InRange(f, t, row, now))}

Valid(row, now) == BadFields(row, now) = {}

(* Optional values that cannot be used are blanked, never delivered.          *)
NumOrBlank(t) == IF t.k = "num" THEN t ELSE Blank
NonNegOrBlank(t) == IF t.k = "num" /\ t.v >= 0 THEN t ELSE Blank

EllipseOk(row) ==
    LET major == row[Pos("SemiMajor90")]
        minor == row[Pos("SemiMinor90")]
        strike == row[Pos("ErrorStrike")]
    IN  /\ major.k = "num" /\ minor.k = "num" /\ strike.k = "num"
        /\ major.v >= 0 /\ minor.v >= 0
        /\ minor.v <= major.v
        /\ 0 <= strike.v /\ strike.v <= 360000

SanitiseField(f, row) ==
    LET t == row[Pos(f)] IN
    CASE f \in Compulsory \cup TextFields -> t
      [] f = "second" -> IF t.k = "num" /\ 0 <= t.v /\ t.v < 60000
                         THEN t ELSE Blank
      [] f \in {"SemiMajor90", "SemiMinor90", "ErrorStrike"} ->
            IF EllipseOk(row) THEN t ELSE Blank
      [] f = "sigmaMw" -> IF t.k = "num" /\ t.v >= 0 THEN t ELSE Zero
      [] f \in {"depthError", "sigmaMs", "sigmamb", "sigmaML"} ->
            NonNegOrBlank(t)
      [] OTHER -> NumOrBlank(t)          \* timeError, Ms, mb, ML

Sanitise(row) == [i \in 1..25 |-> SanitiseField(FieldNames[i], row)]

(* What every entry handed to a user satisfies, whatever the file contains.   *)
Sane(e, now) ==
    /\ Valid(e, now)
    /\ e[Pos("sigmaMw")].k = "num" /\ e[Pos("sigmaMw")].v >= 0
    /\ \A f \in {"depthError", "sigmaMs", "sigmamb", "sigmaML",
                 "SemiMajor90", "SemiMinor90"} :
          e[Pos(f)].k = "num" => e[Pos(f)].v >= 0
    /\ \A f \in RealFields : e[Pos(f)].k \in {"num", "blank"}
    /\ e[Pos("second")].k = "num" => e[Pos("second")].v \in 0..59999
    /\ LET q == {e[Pos(f)].k : f \in {"SemiMajor90", "SemiMinor90",
                                      "ErrorStrike"}}
       IN q = {"num"} \/ q = {"blank"}
    /\ e[Pos("ErrorStrike")].k = "num" =>
          /\ e[Pos("ErrorStrike")].v \in 0..360000
          /\ e[Pos("SemiMinor90")].v <= e[Pos("SemiMajor90")].v

-----------------------------------------------------------------------------
(* The reader as a state machine.                                             *)
VARIABLES hdr,    \* header names found in the file
          rows,   \* the rows of the file, as raw tokens
          now,    \* the current year
          pc,     \* "header", "rows", "done"
          n,      \* rows consumed
          out,    \* entries delivered
          err     \* "none", "malformed" or [fields, row]

cvars == <<hdr, rows, now, pc, n, out, err>>

NoErr == [kind |-> "none", fields |-> {}, row |-> 0]

ReaderInit(h, r, y) ==
    /\ hdr = h /\ rows = r /\ now = y
    /\ pc = "header" /\ n = 0 /\ out = <<>> /\ err = NoErr

AcceptHeader ==
    /\ pc = "header" /\ hdr = FieldNames
    /\ pc' = "rows"
    /\ UNCHANGED <<hdr, rows, now, n, out, err>>

RejectHeader ==
    /\ pc = "header" /\ hdr # FieldNames
    /\ pc' = "done"
    /\ err' = [kind |-> "malformed", fields |-> {}, row |-> 0]
    /\ UNCHANGED <<hdr, rows, now, n, out>>

Deliver ==
    /\ pc = "rows" /\ n < Len(rows) /\ Valid(rows[n + 1], now)
    /\ out' = Append(out, Sanitise(rows[n + 1]))
    /\ n' = n + 1
    /\ UNCHANGED <<hdr, rows, now, pc, err>>

FailRow ==
    /\ pc = "rows" /\ n < Len(rows) /\ ~Valid(rows[n + 1], now)
    /\ err' = [kind |-> "invalid", fields |-> BadFields(rows[n + 1], now),
               row |-> n + 1]
    /\ pc' = "done"
    /\ UNCHANGED <<hdr, rows, now, n, out>>

Finish ==
    /\ pc = "rows" /\ n = Len(rows)
    /\ pc' = "done"
    /\ UNCHANGED <<hdr, rows, now, n, out, err>>

ReaderNext == AcceptHeader \/ RejectHeader \/ Deliver \/ FailRow \/ Finish

(* Properties of the reader. *)
PrefixDelivered == /\ Len(out) = n
                   /\ \A i \in 1..n : out[i] = Sanitise(rows[i])
OnlySane == \A i \in 1..Len(out) : Sane(out[i], now)
ErrorIsFirstBadRow ==
    err.kind = "invalid" =>
        /\ err.row = n + 1 /\ err.fields # {} /\ err.fields \subseteq Compulsory
        /\ \A i \in 1..n : Valid(rows[i], now)
        /\ ~Valid(rows[n + 1], now)
CompleteWhenDone ==
    pc = "done" /\ err.kind = "none" =>
        n = Len(rows) /\ hdr = FieldNames
HeaderFirst == (n > 0 \/ err.kind = "invalid") => hdr = FieldNames
=============================================================================
