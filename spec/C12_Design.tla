------------------------------ MODULE C12_Design ------------------------------
(* One fitted detector (fixed predictors and weights) and a stream of batches: *)
(* rows arrive one by one with cells that are ordinary, outlying or missing;   *)
(* every call processes any set of the rows seen. Flags, predictions and       *)
(* imputations of a row depend on that row alone, exactly the missing and      *)
(* flagged cells are replaced, and imputing again changes nothing missing.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, MaxRows, Edges       \* Edges: set of <<j, i>>: column j predicts column i
EdgeSet == {<<1, 2>>, <<2, 1>>, <<2, 3>>, <<3, 2>>, <<1, 3>>}
VARIABLES rows, batch, out, call
vars == <<rows, batch, out, call>>
NA == 99
Vals == {0, 1, 7, NA}             \* 7: beyond the cutoff
Big(v) == v # NA /\ v > 3
Usable(v) == v # NA /\ ~Big(v)
Preds(row, i) == {j \in 1..P : <<j, i>> \in Edges /\ Usable(row[j])}
RECURSIVE SumV(_, _)
SumV(S, row) == IF S = {} THEN 0 ELSE LET j == CHOOSE k \in S : TRUE IN row[j] + SumV(S \ {j}, row)
(* mean of the usable predictors, zero without any: in units of 6 *)
PredOf(row, i) == LET S == Preds(row, i) IN IF S = {} THEN 0 ELSE (6 * SumV(S, row)) \div Cardinality(S)
FlagOf(row, i) == row[i] # NA /\ (LET d == 6 * row[i] - PredOf(row, i) IN (IF d < 0 THEN 0 - d ELSE d) > 18)
Init == rows = <<>> /\ batch = <<>> /\ out = <<>> /\ call = "none"
Arrive == /\ Len(rows) < MaxRows /\ \E r \in [1..P -> Vals] : rows' = Append(rows, r)
          /\ batch' = <<>> /\ out' = <<>> /\ call' = "none"
Process(kind) == /\ rows # <<>> /\ call = "none" /\ call' = kind
           /\ \E ix \in UNION {[1..k -> 1..Len(rows)] : k \in 1..Len(rows)} :
                /\ batch' = ix
                /\ out' = [k \in 1..Len(ix) |-> LET r == rows[ix[k]] IN
                     [i \in 1..P |-> [pred |-> PredOf(r, i), flag |-> FlagOf(r, i),
                        imp |-> IF r[i] = NA \/ (kind = "outliers" /\ FlagOf(r, i)) THEN PredOf(r, i) ELSE 6 * r[i]]]]
           /\ UNCHANGED rows
Impute == Process("outliers")
ImputeMissing == Process("missing")
Next == Arrive \/ Impute \/ ImputeMissing
Spec == Init /\ [][Next]_vars
(* the same row gives the same result wherever it stands in the batch *)
RowsIndependent == \A a, b \in 1..Len(batch) : rows[batch[a]] = rows[batch[b]] => out[a] = out[b]
MissingNeverFlagged == \A k \in 1..Len(batch) : \A i \in 1..P : rows[batch[k]][i] = NA => ~out[k][i].flag
Imputed == \A k \in 1..Len(batch) : \A i \in 1..P : LET r == rows[batch[k]] c == out[k][i] IN
   IF r[i] = NA \/ (call = "outliers" /\ c.flag) THEN c.imp = c.pred ELSE c.imp = 6 * r[i]
(* a predicted value is never outside the range of what predicts it *)
PredictionBounded == \A k \in 1..Len(batch) : \A i \in 1..P : out[k][i].pred \in 0..18
(* an outlying cell does not enter any prediction *)
OutlyingCellsDoNotSpread == \A k \in 1..Len(batch) : \A i, j \in 1..P : LET r == rows[batch[k]] IN
   (i # j /\ Big(r[j])) => out[k][i].pred = PredOf([r EXCEPT ![j] = NA], i)
=============================================================================
