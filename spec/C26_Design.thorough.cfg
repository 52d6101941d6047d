SPECIFICATION Spec
CONSTANTS Tables = {"a", "b", "c"}
MaxOps = 7
Cached = FALSE
INVARIANTS LoadFresh MutationLocal NothingElse
CHECK_DEADLOCK FALSE
