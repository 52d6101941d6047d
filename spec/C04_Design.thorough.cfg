SPECIFICATION Spec
CONSTANTS MaxN = 9
MaxV = 5
INVARIANTS Optimal Attained ExactFit Monotone
CHECK_DEADLOCK FALSE
