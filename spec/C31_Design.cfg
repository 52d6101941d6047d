SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3}
Vals = {0, 1, 2}
Doc = 1
Shared = FALSE
INVARIANTS DocumentedDefaults OwnDefaults
CHECK_DEADLOCK FALSE
