SPECIFICATION Spec
CONSTANTS Rows = 6
MaxBatch = 4
MaxCalls = 4
Centre = FALSE
INVARIANTS RowByRow AsAlone
CHECK_DEADLOCK FALSE
