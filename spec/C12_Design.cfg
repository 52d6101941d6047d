SPECIFICATION Spec
CONSTANTS P = 3
MaxRows = 2
Edges <- EdgeSet
INVARIANTS RowsIndependent MissingNeverFlagged Imputed PredictionBounded OutlyingCellsDoNotSpread
CHECK_DEADLOCK FALSE
