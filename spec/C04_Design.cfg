SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxV = 4
INVARIANTS Optimal Attained ExactFit Monotone
CHECK_DEADLOCK FALSE
