----------------------------- MODULE ValueObjects -----------------------------
(* Sources, pipelines and tectonic regions as values in memory. Names (slots) *)
(* hold objects; an object has fields, the value of a field is a sequence of  *)
(* tokens (the jobs of a pipeline, the depths of a source, a text, ...). Two  *)
(* names may hold the same object. Objects are equal when all their fields    *)
(* are, and nothing done through one name can be seen through another one,    *)
(* but when both hold the same object.                                        *)
EXTENDS Naturals, Sequences

VARIABLES slot,    \* name -> object (0: none)
          heap     \* object -> [field -> sequence of tokens]
vovars == <<slot, heap>>

VOInit(n) == slot = [s \in 1..n |-> 0] /\ heap = <<>>

Has(s) == slot[s] # 0
Value(s) == heap[slot[s]]
Equal(s, t) == Value(s) = Value(t)

Hold(s, v) == /\ heap' = Append(heap, v) /\ slot' = [slot EXCEPT ![s] = Len(heap) + 1]
\* a new object of the default value
New(s, default) == Hold(s, default)
\* another object of the same value
Copy(s, t) == Has(t) /\ Hold(s, Value(t))
\* another name for the object
Alias(s, t) == Has(t) /\ slot' = [slot EXCEPT ![s] = slot[t]] /\ UNCHANGED heap
\* the value of a field is replaced: in the object, or for an immutable one by
\* a new object
Set(s, f, v) == /\ Has(s) /\ UNCHANGED slot /\ heap' = [heap EXCEPT ![slot[s]][f] = v]
Replace(s, f, v) == Has(s) /\ Hold(s, [Value(s) EXCEPT ![f] = v])
\* what a field holds is changed in place
Grow(s, f, x) == /\ Has(s) /\ UNCHANGED slot
                 /\ heap' = [heap EXCEPT ![slot[s]][f] = Append(@, x)]
=============================================================================
