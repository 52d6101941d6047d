SPECIFICATION Spec
CONSTANTS Source = "percall"
Seeds = {"s0", "s1"}
MaxOps = 9
INVARIANTS Reproducible CandidatesDiffer
CHECK_DEADLOCK FALSE
