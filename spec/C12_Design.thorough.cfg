SPECIFICATION Spec
CONSTANTS P = 3
MaxRows = 3
Edges <- EdgeSet
INVARIANTS RowsIndependent MissingNeverFlagged Imputed PredictionBounded OutlyingCellsDoNotSpread
CHECK_DEADLOCK FALSE
