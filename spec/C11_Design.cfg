SPECIFICATION Spec
CONSTANTS MaxN = 6
MaxV = 4
MaxIt = 1500
INVARIANTS Solved Inside Stationary Terminates
PROPERTIES Monotone Descent
CHECK_DEADLOCK FALSE
