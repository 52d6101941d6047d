SPECIFICATION Spec
CONSTANTS N = 4
P = 2
MaxV = 2
INVARIANTS Complete SymmetricTau Bounded SelfConcordant PerfectIffMonotone
CHECK_DEADLOCK FALSE
