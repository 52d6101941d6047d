------------------------------ MODULE C23_Design ------------------------------
(* A fitted model processes a table of rows in batches chosen freely: any      *)
(* order, any split, repetitions. Own(r) is what row r gives on its own; with  *)
(* Centre = TRUE the code centres with a statistic of the batch, which no      *)
(* model may do once it is fitted.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Rows, MaxBatch, MaxCalls, Centre
VARIABLES seen, calls
Vals == <<3, -1, 4, 1, -5, 9>>
Own(r) == 2 * Vals[r] + 1
Batches == UNION {[1..m -> 1..Rows] : m \in 1..MaxBatch}
RECURSIVE SumV(_, _)
SumV(b, k) == IF k = 0 THEN 0 ELSE Vals[b[k]] + SumV(b, k - 1)
Out(b) == [i \in 1..Len(b) |-> IF Centre THEN Own(b[i]) - SumV(b, Len(b)) \div Len(b) ELSE Own(b[i])]
Init == seen = {} /\ calls = 0
Process(b) == calls < MaxCalls /\ calls' = calls + 1 /\ seen' = seen \cup {<<b[i], Out(b)[i]>> : i \in 1..Len(b)}
Next == \E b \in Batches : Process(b)
Spec == Init /\ [][Next]_<<seen, calls>>
RowByRow == \A a, b \in seen : a[1] = b[1] => a[2] = b[2]
AsAlone == \A a \in seen : a[2] = Own(a[1])
=============================================================================
