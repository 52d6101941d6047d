------------------------------ MODULE C28_Design ------------------------------
(* A display session: a model fitted on data (version 1), the caller may write *)
(* into his data, the model may be refitted, displays are drawn with a zoom    *)
(* (rows from..to, columns from..to). A drawn cell shows the pair (result at   *)
(* that cell as of the last fit, data value at that cell as of the last fit).  *)
(* OwnCopy: the model keeps its own copy of the data; SameZoom: the            *)
(* annotations are zoomed like the values.                                     *)
EXTENDS Integers, Sequences
CONSTANTS N, P, MaxOps, OwnCopy, SameZoom
VARIABLES fitv, datav, drawn, zoom, model, ops
vars == <<fitv, datav, drawn, zoom, model, ops>>
Init == fitv = 1 /\ datav = 1 /\ drawn = <<>> /\ zoom = <<0, N, 0, P>> /\ model = <<1, 1>> /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
Write == Tick /\ datav < 3 /\ datav' = datav + 1 /\ UNCHANGED <<fitv, drawn, zoom, model>>
Refit == Tick /\ fitv' = datav /\ model' = <<datav, datav>> /\ drawn' = <<>> /\ UNCHANGED <<datav, zoom>>
Cell(i, j, z) == [res |-> <<z[1] + i, z[3] + j, model[1]>>,
                  ann |-> <<(IF SameZoom THEN z[1] ELSE 0) + i, (IF SameZoom THEN z[3] ELSE 0) + j, IF OwnCopy THEN model[2] ELSE datav>>]
Draw == /\ Tick /\ \E a \in 0..(N - 1), b \in 1..N, c \in 0..(P - 1), d \in 1..P :
             a < b /\ c < d /\ zoom' = <<a, b, c, d>> /\ drawn' = [i \in 1..(b - a) |-> [j \in 1..(d - c) |-> Cell(i, j, <<a, b, c, d>>)]]
        /\ UNCHANGED <<fitv, datav, model>>
Next == Write \/ Refit \/ Draw
Spec == Init /\ [][Next]_vars
Sized == drawn # <<>> => Len(drawn) = zoom[2] - zoom[1] /\ \A i \in 1..Len(drawn) : Len(drawn[i]) = zoom[4] - zoom[3]
ShowsFit == \A i \in 1..Len(drawn) : \A j \in 1..Len(drawn[i]) : drawn[i][j].res = <<zoom[1] + i, zoom[3] + j, fitv>>
SameCell == \A i \in 1..Len(drawn) : \A j \in 1..Len(drawn[i]) : drawn[i][j].ann = drawn[i][j].res
ModelKept == model = <<fitv, fitv>>
=============================================================================
