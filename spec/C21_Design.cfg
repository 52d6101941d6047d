SPECIFICATION Spec
CONSTANTS NBuf = 3
Containers = {"array", "fortran", "view", "int", "frame", "mixed"}
MaxCalls = 5
Copies = TRUE
INVARIANTS CallerDataUnchanged NothingAliased
CHECK_DEADLOCK FALSE
