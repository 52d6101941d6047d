------------------------------ MODULE C14_Design ------------------------------
(* The cleaner as a state machine over every small missingness pattern: decide *)
(* rows or columns first, then the other on what is left, drop, and clean the  *)
(* next frame. Nothing of an earlier frame may influence a later one.          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, P, Frames, Half, Orders
VARIABLES miss, k, order, rows, cols, pc, first
vars == <<miss, k, order, rows, cols, pc, first>>
Row == 1..N
Colm == 1..P
Cell == Row \X Colm
Share(S, m) == Cardinality({q \in S : q \in m})
Bad(S, m) == S # {} /\ Half * Share(S, m) >= Cardinality(S)
RowBad(m, cs) == {i \in Row : Bad({i} \X cs, m)}
ColBad(m, rs) == {j \in Colm : Bad(rs \X {j}, m)}
(* the documented result, as a function of the current frame alone *)
WantRows(m, o) == IF o = "rows" THEN RowBad(m, Colm) ELSE RowBad(m, Colm \ ColBad(m, Row))
WantCols(m, o) == IF o = "columns" THEN ColBad(m, Row) ELSE ColBad(m, Row \ RowBad(m, Colm))
Init == miss \in SUBSET Cell /\ k = 1 /\ order \in Orders /\ rows = {} /\ cols = {} /\ pc = "begin" /\ first = "?"
Begin == /\ pc = "begin" /\ rows' = {} /\ cols' = {}      \* forget the previous frame
         /\ first' = IF order = "automatic" THEN (IF P >= 5 * N THEN "columns" ELSE "rows") ELSE order
         /\ pc' = "one" /\ UNCHANGED <<miss, k, order>>
One == /\ pc = "one" /\ pc' = "two"
       /\ IF first = "rows" THEN rows' = RowBad(miss, Colm \ cols) /\ cols' = cols ELSE cols' = ColBad(miss, Row \ rows) /\ rows' = rows
       /\ UNCHANGED <<miss, k, order, first>>
Two == /\ pc = "two" /\ pc' = "out"
       /\ IF first = "rows" THEN cols' = ColBad(miss, Row \ rows) /\ rows' = rows ELSE rows' = RowBad(miss, Colm \ cols) /\ cols' = cols
       /\ UNCHANGED <<miss, k, order, first>>
Again == /\ pc = "out" /\ k < Frames /\ k' = k + 1 /\ pc' = "begin" /\ (\E m \in SUBSET Cell : miss' = m) /\ UNCHANGED <<order, rows, cols, first>>
Next == Begin \/ One \/ Two \/ Again
Spec == Init /\ [][Next]_vars
Out == pc = "out"
Eff == IF order = "automatic" THEN "rows" ELSE order
FunctionOfFrame == Out => rows = WantRows(miss, Eff) /\ cols = WantCols(miss, Eff)
(* what survives respects the rule that was applied last *)
SurvivorsRespectLast == Out => IF first = "rows" THEN \A j \in Colm \ cols : ~Bad((Row \ rows) \X {j}, miss)
                                                 ELSE \A i \in Row \ rows : ~Bad({i} \X (Colm \ cols), miss)
CompleteFramesKept == Out /\ miss = {} => rows = {} /\ cols = {}
OrderKept == [][order' = order]_vars
=============================================================================
