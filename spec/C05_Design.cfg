SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxV = 5
INVARIANTS Correct Bracketed WMedianExists KMajority
PROPERTIES Terminates Shrinks
CHECK_DEADLOCK FALSE
