SPECIFICATION Spec
CONSTANTS Rows = 4
MaxBatch = 3
MaxCalls = 3
Centre = FALSE
INVARIANTS RowByRow AsAlone
CHECK_DEADLOCK FALSE
