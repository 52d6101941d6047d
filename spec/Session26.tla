------------------------------ MODULE Session26 ------------------------------
(* A session with the dataset loaders: results are held by the caller, who may *)
(* change any of them, move to another directory, and load again. `held' is    *)
(* the content of every result so far, named abstractly.                       *)
EXTENDS Integers, Sequences
SLoad(held, c) == Append(held, c)
SMutate(held, k, c) == [held EXCEPT ![k] = c]
(* the content a load must have does not depend on the history *)
LoadOk(held, next, file) == Len(next) = Len(held) + 1 /\ next[Len(next)] = file /\ \A i \in 1..Len(held) : next[i] = held[i]
MutateOk(held, next, k) == Len(next) = Len(held) /\ \A i \in 1..Len(held) : i # k => next[i] = held[i]
OtherOk(held, next) == next = held
=============================================================================
