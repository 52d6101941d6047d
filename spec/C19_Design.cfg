SPECIFICATION Spec
CONSTANTS Objs = 3
Data = {1, 2}
MaxOps = 6
Copies = TRUE
Warm = FALSE
Lazy = FALSE
INVARIANTS NoMemory NoInterference
CHECK_DEADLOCK FALSE
