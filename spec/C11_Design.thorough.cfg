SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxV = 6
MaxIt = 1500
INVARIANTS Solved Inside Stationary Terminates
PROPERTIES Monotone Descent
CHECK_DEADLOCK FALSE
