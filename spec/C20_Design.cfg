SPECIFICATION Spec
CONSTANTS Source = "percall"
Seeds = {"s0", "s1"}
MaxOps = 6
INVARIANTS Reproducible CandidatesDiffer
CHECK_DEADLOCK FALSE
