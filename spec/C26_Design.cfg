SPECIFICATION Spec
CONSTANTS Tables = {"a", "b"}
MaxOps = 5
Cached = FALSE
INVARIANTS LoadFresh MutationLocal NothingElse
CHECK_DEADLOCK FALSE
