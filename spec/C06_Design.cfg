SPECIFICATION Spec
CONSTANTS MaxN = 7
MaxV = 6
INVARIANTS Defined InRange HalfKept MadZero
CHECK_DEADLOCK FALSE
