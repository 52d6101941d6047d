SPECIFICATION Spec
CONSTANTS MaxN = 9
MaxV = 6
INVARIANTS Correct Bracketed WMedianExists KMajority
PROPERTIES Terminates Shrinks
CHECK_DEADLOCK FALSE
