------------------------------ MODULE Isolation ------------------------------
(* What a run leaves in a source model is a function of the source as read,   *)
(* of its own events and of the configuration: the first run which shows a    *)
(* source in given circumstances fixes the function there, and every later    *)
(* run has to agree.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLE memo   \* set of [key, result]

MInit == memo = {}
KnownKeys == {x.key : x \in memo}
ResultOf(key) == (CHOOSE x \in memo : x.key = key).result

Learn(key, result) ==
    /\ key \notin KnownKeys
    /\ memo' = memo \cup {[key |-> key, result |-> result]}
Confirm(key, result) ==
    /\ key \in KnownKeys /\ ResultOf(key) = result
    /\ UNCHANGED memo

Functional == \A x, y \in memo : x.key = y.key => x = y
=============================================================================
