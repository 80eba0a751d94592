-------------------------- MODULE CompletenessStore --------------------------
(* The completeness table file. Values are fixed point numbers with five      *)
(* decimals: n hundred thousandths and a remainder r, one of "zero", "less",  *)
(* "half" (exactly or up to binary rounding), "more".                         *)
(* file: <<>> or <<table>>; storing replaces it, retrieving gives its rows in *)
(* order, rounded to five decimals.                                           *)
EXTENDS Integers, Sequences

VARIABLES file, memory     \* memory: the table of the context, <<>> or <<table>>
fvars == <<file, memory>>

RoundsTo(v, k) ==
    CASE v.r = "zero" -> k = v.n
      [] v.r = "less" -> k = v.n
      [] v.r = "more" -> k = v.n + 1
      [] v.r = "half" -> k \in {v.n, v.n + 1}
TableRoundsTo(t, q) ==
    /\ Len(t) = Len(q)
    /\ \A i \in 1..Len(t) : RoundsTo(t[i].y, q[i].y) /\ RoundsTo(t[i].m, q[i].m)

FixedValue(k) == [n |-> k, r |-> "zero"]
FixedTable(q) == [i \in 1..Len(q) |-> [y |-> FixedValue(q[i].y), m |-> FixedValue(q[i].m)]]

StoreInit == file = <<>> /\ memory = <<>>
Have(t) == memory' = <<t>> /\ UNCHANGED file
Store(q) == memory # <<>> /\ TableRoundsTo(memory[1], q) /\ file' = <<q>> /\ UNCHANGED memory
Retrieve == file # <<>> /\ memory' = <<FixedTable(file[1])>> /\ UNCHANGED file
=============================================================================
