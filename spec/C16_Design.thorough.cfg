SPECIFICATION Spec
CONSTANTS N = 5
P = 2
MaxV = 2
INVARIANTS Complete SymmetricTau Bounded SelfConcordant PerfectIffMonotone
CHECK_DEADLOCK FALSE
